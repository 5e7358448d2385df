// Minimal user types: each offers only what the documentation of the operation it is used with asks for.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <new>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

// key: copyable and movable, no default constructor, no assignment, no operators of its own
struct K1 {
    int v;
    explicit K1(int a) : v(a) {}
    K1(const K1& o) : v(o.v) {}
    K1(K1&& o) noexcept : v(o.v) {}
    K1& operator=(const K1&) = delete;
};
inline bool operator==(const K1& a, const K1& b) { return a.v == b.v; }
// key: move-only, no default constructor, not assignable
struct KM {
    int v;
    explicit KM(int a) : v(a) {}
    KM(KM&& o) noexcept : v(o.v) {}
    KM(const KM&) = delete;
    KM& operator=(const KM&) = delete;
};
// the same with assignment, for containers that shift elements
struct KA {
    int v;
    explicit KA(int a) : v(a) {}
    KA(const KA& o) : v(o.v) {}
    KA(KA&& o) noexcept : v(o.v) {}
    KA& operator=(const KA& o) { v = o.v; return *this; }
    KA& operator=(KA&& o) noexcept { v = o.v; return *this; }
};
inline bool operator==(const KA& a, const KA& b) { return a.v == b.v; }
struct KB {
    int v;
    explicit KB(int a) : v(a) {}
    KB(KB&& o) noexcept : v(o.v) {}
    KB& operator=(KB&& o) noexcept { v = o.v; return *this; }
};
// value: move-only, no default constructor
struct VM {
    int v;
    explicit VM(int a) : v(a) {}
    VM(int a, int b) : v(a + b) {}
    VM(VM&& o) noexcept : v(o.v) {}
    VM& operator=(VM&& o) noexcept { v = o.v; return *this; }
};
// value: move-only, move constructor only (not assignable)
struct VC {
    int v;
    explicit VC(int a) : v(a) {}
    VC(VC&& o) noexcept : v(o.v) {}
    VC& operator=(VC&&) = delete;
};
// value: cannot be copied or moved at all (node containers)
struct VP {
    int v;
    explicit VP(int a) : v(a) {}
    VP(int a, int b) : v(a + b) {}
    VP(VP&&) = delete;
    VP& operator=(VP&&) = delete;
};
// key: cannot be copied or moved at all
struct KP {
    int v;
    explicit KP(int a) : v(a) {}
    KP(KP&&) = delete;
    KP& operator=(KP&&) = delete;
};
// value: default constructible and assignable, but not constructible from anything else
struct VD {
    int v = 0;
    VD() = default;
    VD(const VD&) = default;
    VD& operator=(const VD&) = default;
};
// copyable value without default constructor
struct VN {
    int v;
    explicit VN(int a) : v(a) {}
    VN(const VN&) = default;
    VN& operator=(const VN&) = default;
};
inline bool operator==(const VN& a, const VN& b) { return a.v == b.v; }
// value: overloads the address-of operator and the comma operator in awkward ways
struct VA {
    int v = 0;
    VA() = default;
    explicit VA(int a) : v(a) {}
};

// function objects carrying state, without default constructor, const call operators only
struct H1 {
    int s;
    explicit H1(int a) : s(a) {}
    template<class T> size_t operator()(const T& k) const { return size_t(k.v); }
};
struct E1 {
    int s;
    explicit E1(int a) : s(a) {}
    template<class T> bool operator()(const T& a, const T& b) const { return a.v == b.v; }
};
struct L1 {
    int s;
    explicit L1(int a) : s(a) {}
    template<class T> bool operator()(const T& a, const T& b) const { return a.v < b.v; }
};
// the same with a default constructor (parallel containers default-construct their submaps)
struct H2 : H1 { H2() : H1(0) {} explicit H2(int a) : H1(a) {} };
struct E2 : E1 { E2() : E1(0) {} explicit E2(int a) : E1(a) {} };
// default constructible, final, plain function objects on one key type
template<class T> struct H0 final { size_t operator()(const T& k) const { return size_t(k.v); } };
template<class T> struct E0 final { bool operator()(const T& a, const T& b) const { return a.v == b.v; } };
template<class T> struct L0 { bool operator()(const T& a, const T& b) const { return a.v < b.v; } };

// foreign key and transparent function objects
struct Q1 { int v; };
struct HT {
    using is_transparent = void;
    template<class T> size_t operator()(const T& k) const { return size_t(k.v); }
};
struct ET {
    using is_transparent = void;
    template<class A, class B> bool operator()(const A& a, const B& b) const { return a.v == b.v; }
};
struct LT {
    using is_transparent = void;
    template<class A, class B> bool operator()(const A& a, const B& b) const { return a.v < b.v; }
};

// the smallest allocator the standard admits, with state and without default constructor
template<class T>
struct A1 {
    using value_type = T;
    int s;
    explicit A1(int a) noexcept : s(a) {}
    template<class U> A1(const A1<U>& o) noexcept : s(o.s) {}
    T*   allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, size_t) noexcept { ::operator delete(p); }
    template<class U> friend bool operator==(const A1& a, const A1<U>& b) noexcept { return a.s == b.s; }
    template<class U> friend bool operator!=(const A1& a, const A1<U>& b) noexcept { return a.s != b.s; }
};
// stateless, default constructible
template<class T>
struct A0 {
    using value_type = T;
    A0() = default;
    template<class U> A0(const A0<U>&) noexcept {}
    T*   allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, size_t) noexcept { ::operator delete(p); }
    template<class U> friend bool operator==(const A0&, const A0<U>&) noexcept { return true; }
    template<class U> friend bool operator!=(const A0&, const A0<U>&) noexcept { return false; }
};
// with state, not propagating
template<class T>
struct A2 {
    using value_type = T;
    int s = 0;
    A2() = default;
    explicit A2(int a) noexcept : s(a) {}
    template<class U> A2(const A2<U>& o) noexcept : s(o.s) {}
    T*   allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, size_t) noexcept { ::operator delete(p); }
    template<class U> friend bool operator==(const A2& a, const A2<U>& b) noexcept { return a.s == b.s; }
    template<class U> friend bool operator!=(const A2& a, const A2<U>& b) noexcept { return a.s != b.s; }
};
// propagates on everything
template<class T>
struct AP {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::true_type;
    using propagate_on_container_move_assignment = std::true_type;
    using propagate_on_container_swap = std::true_type;
    int s = 0;
    AP() = default;
    explicit AP(int a) : s(a) {}
    template<class U> AP(const AP<U>& o) noexcept : s(o.s) {}
    T*   allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, size_t) noexcept { ::operator delete(p); }
    template<class U> friend bool operator==(const AP& a, const AP<U>& b) noexcept { return a.s == b.s; }
    template<class U> friend bool operator!=(const AP& a, const AP<U>& b) noexcept { return a.s != b.s; }
};

// the smallest mutex
struct MX {
    void lock() {}
    void unlock() noexcept {}
    bool try_lock() { return true; }
    MX() = default;
    MX(const MX&) = delete;
    MX& operator=(const MX&) = delete;
};

// input iterator (single pass) and forward iterator yielding T
template<class T>
struct InIt {
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const T* p;
    const T& operator*() const { return *p; }
    const T* operator->() const { return p; }
    InIt& operator++() { ++p; return *this; }
    InIt operator++(int) { auto r = *this; ++p; return r; }
    friend bool operator==(const InIt& a, const InIt& b) { return a.p == b.p; }
    friend bool operator!=(const InIt& a, const InIt& b) { return a.p != b.p; }
};
struct Save { bool saveBinary(const void*, size_t) { return true; } };
struct Load { bool loadBinary(void*, size_t) { return true; } };
template<class T> T&& any();
template<class... T> void use(T&&...) {}
