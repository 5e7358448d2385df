// Facts about types. YES(...) / NO(...): the expression is / is not well-formed; SAME: the type is exactly this one.
#pragma once
#include "min.h"
#include <concepts>
#include <type_traits>
#define YES(...) static_assert(requires { __VA_ARGS__; }, "must be accepted: " #__VA_ARGS__)
#define NO(...) static_assert(!requires { __VA_ARGS__; }, "must be rejected: " #__VA_ARGS__)
// an operation that M offers and const M does not
#define MUT(...) YES(D(M&)__VA_ARGS__); NO(D(const M&)__VA_ARGS__)
#define SAME(E, ...) static_assert(std::is_same_v<E, __VA_ARGS__>, "type: " #E " is " #__VA_ARGS__)
#define D(...) std::declval<__VA_ARGS__>()
// a callback that must be called with exactly T, returning R
template<class T, class R = bool> struct CB {
    template<class A> R operator()(A&& a) const {
        static_assert(std::is_same_v<A&&, T>, "callback argument type");
        if constexpr (!std::is_void_v<R>) return R(1);
    }
};
struct Thr { Thr() {} Thr(const Thr&) {} Thr(Thr&&) {} Thr& operator=(const Thr&) { return *this; } };
template<class T> struct HThr : Thr { size_t operator()(const T& k) const { return size_t(k.v); } };
template<class T> struct EThr : Thr { bool operator()(const T& a, const T& b) const { return a.v == b.v; } };
template<class T> struct LThr : Thr { bool operator()(const T& a, const T& b) const { return a.v < b.v; } };
