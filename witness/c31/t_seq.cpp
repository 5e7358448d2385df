#include <gtl/vector.hpp>
#include <gtl/bit_vector.hpp>
#include <gtl/soa.hpp>
#include "t.h"
template<class M> void vec_facts() {
    using T = typename M::value_type;
    using I = typename M::iterator;
    using C = typename M::const_iterator;
    SAME(typename M::reference, T&);
    SAME(typename M::const_reference, const T&);
    SAME(decltype(D(M&).begin()), I);
    SAME(decltype(D(const M&).begin()), C);
    SAME(decltype(D(const M&).end()), C);
    SAME(decltype(D(M&).cbegin()), C);
    SAME(decltype(D(M&).cend()), C);
    SAME(decltype(*D(I&)), T&);
    SAME(decltype(*D(C&)), const T&);
    SAME(decltype(*D(const M&).rbegin()), const T&);
    SAME(decltype(*D(M&).crbegin()), const T&);
    SAME(decltype(*D(const M&).rend()), const T&);
    SAME(decltype(D(const M&)[0]), const T&);
    SAME(decltype(D(const M&).at(0)), const T&);
    SAME(decltype(D(const M&).front()), const T&);
    SAME(decltype(D(const M&).back()), const T&);
    SAME(decltype(D(const M&).data()), const T*);
    SAME(decltype(D(M&)[0]), T&);
    SAME(decltype(D(M&).at(0)), T&);
    SAME(decltype(D(M&).front()), T&);
    SAME(decltype(D(M&).back()), T&);
    SAME(decltype(D(M&).data()), T*);
    static_assert(std::is_convertible_v<I, C> && !std::is_convertible_v<C, I>);
    static_assert(std::random_access_iterator<I> && std::random_access_iterator<C>);
    static_assert(std::is_unsigned_v<typename M::size_type>);
    MUT(.clear());
    MUT(.push_back(D(T)));
    MUT(.emplace_back(D(T)));
    MUT(.pop_back());
    MUT(.resize(1));
    MUT(.reserve(1));
    MUT(.shrink_to_fit());
    MUT(.insert(D(C), D(T)));
    MUT(.insert(D(C), 1, D(const T&)));
    MUT(.emplace(D(C), D(T)));
    MUT(.erase(D(C)));
    MUT(.erase(D(C), D(C)));
    MUT(.assign(1, D(const T&)));
    MUT(.swap(D(M&)));
    MUT( = D(const M&));
    NO(D(M&).swap(D(const M&)));
    static_assert(std::is_nothrow_move_constructible_v<M> && std::is_nothrow_move_assignable_v<M> && std::is_nothrow_swappable_v<M>, "moving a vector does not throw");
}
template void vec_facts<gtl::vector<VD>>();
template void vec_facts<gtl::vector<int>>();
template void vec_facts<gtl::vector<std::string>>();
template<class M> void bit_facts() {
    SAME(decltype(D(const M&)[0]), bool);
    SAME(decltype(D(M&)[0]), bool);
    SAME(decltype(D(const M&).test(0)), bool);
    MUT(.set());
    MUT(.reset());
    MUT(.flip());
    MUT(.set(0));
    MUT(.reset(0));
    MUT(.flip(0));
    MUT(.set(0, true));
    MUT(.resize(1));
    MUT( |= D(const M&));
    MUT( &= D(const M&));
    MUT( ^= D(const M&));
    MUT( -= D(const M&));
    MUT( <<= 1);
    MUT( >>= 1);
    MUT(.or_not(D(const M&)));
    MUT( = D(const M&));
    MUT(.view().set(0));
    MUT(.view().set());
    MUT(.view().reset(0));
    MUT(.view().flip(0));
    MUT(.view() |= D(const M&).view());
    MUT(.view() <<= 1);
    static_assert(std::is_nothrow_move_constructible_v<M>, "moving a bit vector does not throw");
    static_assert(!std::is_convertible_v<size_t, M>, "a number is not silently a bit vector");
}
template void bit_facts<gtl::bit_vector>();
template<class M> void soa_facts() {
    static_assert(std::is_const_v<std::remove_reference_t<decltype(D(const M&).template get_column<0>())>>);
    SAME(decltype(D(const M&)[0]), std::tuple<const int&, const std::string&>);
    SAME(decltype(D(M&)[0]), std::tuple<int&, std::string&>);
    SAME(decltype(D(const M&).template view<1>(0)), std::tuple<const std::string&>);
    SAME(decltype(D(M&).template view<1, 0>(0)), std::tuple<std::string&, int&>);
    MUT(.clear());
    MUT(.resize(1));
    MUT(.reserve(1));
    MUT(.insert(1, D(std::string)));
    MUT(.template sort_by_field<0>());
}
template void soa_facts<gtl::soa<int, std::string>>();
