#include <gtl/btree.hpp>
#include "t.h"
template<class M> void common() {
    using K = typename M::key_type;
    using V = typename M::value_type;
    using I = typename M::iterator;
    using C = typename M::const_iterator;
    SAME(typename M::const_reference, const V&);
    static_assert(std::is_same_v<typename M::reference, V&> || std::is_same_v<typename M::reference, const V&>);
    static_assert(std::is_unsigned_v<typename M::size_type>);
    static_assert(std::is_signed_v<typename M::difference_type>);
    static_assert(std::is_same_v<typename std::iterator_traits<I>::iterator_category, std::bidirectional_iterator_tag>);
    static_assert(std::is_same_v<typename std::iterator_traits<C>::iterator_category, std::bidirectional_iterator_tag>);
    SAME(decltype(D(const M&).begin()), C);
    SAME(decltype(D(const M&).end()), C);
    SAME(decltype(D(M&).cbegin()), C);
    SAME(decltype(D(const M&).cend()), C);
    SAME(decltype(D(const M&).rbegin()), typename M::const_reverse_iterator);
    SAME(decltype(D(const M&).rend()), typename M::const_reverse_iterator);
    SAME(decltype(D(M&).crbegin()), typename M::const_reverse_iterator);
    SAME(decltype(D(const M&).find(D(const K&))), C);
    SAME(decltype(D(const M&).lower_bound(D(const K&))), C);
    SAME(decltype(D(const M&).upper_bound(D(const K&))), C);
    SAME(decltype(D(const M&).equal_range(D(const K&))), std::pair<C, C>);
    SAME(decltype(*D(C&)), const V&);
    SAME(decltype(*D(const C&)), const V&);
    SAME(decltype(D(C&).operator->()), const V*);
    SAME(decltype(*D(typename M::const_reverse_iterator&)), const V&);
    SAME(decltype(D(M&).find(D(const K&))), I);
    static_assert(std::is_convertible_v<I, C>);
    static_assert(std::is_same_v<I, C> || !std::is_convertible_v<C, I>);
    static_assert(std::is_same_v<I, C> || !std::is_constructible_v<I, C>);
    MUT(.clear());
    MUT(.erase(D(const K&)));
    MUT(.erase(D(C)));
    MUT(.erase(D(I)));
    MUT(.erase(D(C), D(C)));
    MUT(.insert(D(const V&)));
    MUT(.insert(D(V)));
    MUT(.insert(D(C), D(const V&)));
    MUT(.emplace(D(const V&)));
    MUT(.emplace_hint(D(C), D(const V&)));
    MUT(.extract(D(const K&)));
    MUT(.extract(D(C)));
    MUT(.insert(D(typename M::node_type)));
    MUT(.swap(D(M&)));
    MUT(.merge(D(M&)));
    MUT( = D(const M&));
    NO(D(M&).swap(D(const M&)));
    NO(D(M&).merge(D(const M&)));
    static_assert(!std::is_copy_constructible_v<typename M::node_type>);
    static_assert(!std::is_copy_assignable_v<typename M::node_type>);
    static_assert(std::is_move_constructible_v<typename M::node_type>);
    NO(D(M&).insert(D(typename M::node_type&)));
    SAME(decltype(D(const M&).size()), typename M::size_type);
    SAME(decltype(D(const M&).empty()), bool);
    SAME(decltype(D(const M&).contains(D(const K&))), bool);
    SAME(decltype(D(const M&).count(D(const K&))), typename M::size_type);
    SAME(decltype(D(M&).erase(D(const K&))), typename M::size_type);
    static_assert(std::is_nothrow_move_constructible_v<M>, "moving a container does not throw");
}
template<class M> void map_facts() {
    using K = typename M::key_type;
    using T = typename M::mapped_type;
    using V = typename M::value_type;
    using I = typename M::iterator;
    SAME(V, std::pair<const K, T>);
    SAME(decltype(*D(I&)), V&);
    static_assert(!std::is_assignable_v<decltype((D(I&)->first)), K>);
    static_assert(std::is_assignable_v<decltype((D(I&)->second)), T>);
    static_assert(!std::is_assignable_v<decltype((D(typename M::const_iterator&)->second)), T>);
    common<M>();
}
template<class M> void uni_map() {
    using K = typename M::key_type;
    using T = typename M::mapped_type;
    SAME(decltype(D(M&).at(D(const K&))), T&);
    SAME(decltype(D(const M&).at(D(const K&))), const T&);
    SAME(decltype(D(M&)[D(const K&)]), T&);
    MUT([D(const K&)]);
    MUT(.try_emplace(D(const K&)));
    SAME(decltype(D(M&).insert(D(const typename M::value_type&))), std::pair<typename M::iterator, bool>);
}
template<class M> void set_facts() {
    using K = typename M::key_type;
    using I = typename M::iterator;
    SAME(typename M::value_type, K);
    SAME(decltype(*D(I&)), const K&);
    SAME(decltype(D(I&).operator->()), const K*);
    static_assert(!std::is_assignable_v<decltype(*D(I&)), K>);
    static_assert(!std::is_assignable_v<decltype(*D(typename M::reverse_iterator&)), K>);
    common<M>();
}
template<class M, class Q> void no_foreign() {
    NO(D(M&).find(D(const Q&)));
    NO(D(const M&).find(D(const Q&)));
    NO(D(const M&).contains(D(const Q&)));
    NO(D(const M&).count(D(const Q&)));
    NO(D(M&).erase(D(const Q&)));
    NO(D(const M&).lower_bound(D(const Q&)));
    NO(D(const M&).upper_bound(D(const Q&)));
    NO(D(const M&).equal_range(D(const Q&)));
}
template<class M, class Q> void foreign() {
    YES(D(M&).find(D(const Q&)));
    YES(D(const M&).find(D(const Q&)));
    YES(D(const M&).contains(D(const Q&)));
    YES(D(const M&).count(D(const Q&)));
    YES(D(const M&).lower_bound(D(const Q&)));
}
using MM = gtl::btree_map<KA, VD, L0<KA>>;
using MMM = gtl::btree_multimap<KA, VD, L0<KA>>;
using S = gtl::btree_set<KA, L0<KA>>;
using MS = gtl::btree_multiset<KA, L0<KA>>;
template void map_facts<MM>();
template void map_facts<MMM>();
template void uni_map<MM>();
template void uni_map<gtl::btree_map<int, std::string>>();
template void set_facts<S>();
template void set_facts<MS>();
template void set_facts<gtl::btree_set<int>>();
template void no_foreign<MM, Q1>();
template void no_foreign<MMM, Q1>();
template void no_foreign<S, Q1>();
template void no_foreign<MS, Q1>();
template void foreign<gtl::btree_map<KA, VD, LT>, Q1>();
template void foreign<gtl::btree_set<KA, LT>, Q1>();
template void foreign<gtl::btree_multiset<KA, LT>, Q1>();
