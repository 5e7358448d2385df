#include <gtl/phmap.hpp>
#include "t.h"
template<class M> void common() {
    using K = typename M::key_type;
    using V = typename M::value_type;
    using I = typename M::iterator;
    using C = typename M::const_iterator;
    SAME(typename M::const_reference, const V&);
    SAME(typename M::reference, V&);
    SAME(typename M::const_pointer, const V*);
    SAME(typename M::pointer, V*);
    static_assert(std::is_unsigned_v<typename M::size_type>);
    static_assert(std::is_signed_v<typename M::difference_type>);
    static_assert(std::is_same_v<typename std::iterator_traits<I>::iterator_category, std::forward_iterator_tag>);
    static_assert(std::is_same_v<typename std::iterator_traits<C>::iterator_category, std::forward_iterator_tag>);
    // const objects hand out const iterators to const elements
    SAME(decltype(D(const M&).begin()), C);
    SAME(decltype(D(const M&).end()), C);
    SAME(decltype(D(M&).cbegin()), C);
    SAME(decltype(D(const M&).cend()), C);
    SAME(decltype(D(const M&).find(D(const K&))), C);
    SAME(decltype(D(const M&).find(D(const K&), size_t())), C);
    SAME(decltype(D(const M&).equal_range(D(const K&))), std::pair<C, C>);
    SAME(decltype(*D(C&)), const V&);
    SAME(decltype(*D(const C&)), const V&);
    SAME(decltype(D(C&).operator->()), const V*);
    SAME(decltype(D(M&).find(D(const K&))), I);
    SAME(decltype(D(M&).begin()), I);
    static_assert(std::is_convertible_v<I, C>);
    static_assert(!std::is_convertible_v<C, I>);
    static_assert(!std::is_constructible_v<I, C>);
    static_assert(!std::is_assignable_v<I&, C>);
    // nothing modifies a const object
    MUT(.clear());
    MUT(.erase(D(const K&)));
    MUT(.erase(D(C)));
    MUT(.erase(D(I)));
    MUT(.erase(D(C), D(C)));
    MUT(._erase(D(I)));
    MUT(._erase(D(C)));
    MUT(.insert(D(const V&)));
    MUT(.insert(D(V)));
    MUT(.insert(D(C), D(const V&)));
    MUT(.emplace(D(const V&)));
    MUT(.emplace_hint(D(C), D(const V&)));
    MUT(.extract(D(const K&)));
    MUT(.extract(D(C)));
    MUT(.insert(D(typename M::node_type)));
    MUT(.rehash(1));
    MUT(.reserve(1));
    MUT(.swap(D(M&)));
    NO(D(M&).swap(D(const M&)));
    MUT( = D(const M&));
    MUT(.merge(D(M&)));
    NO(D(M&).merge(D(const M&)));
    // node handles move and do not copy
    static_assert(!std::is_copy_constructible_v<typename M::node_type>);
    static_assert(!std::is_copy_assignable_v<typename M::node_type>);
    static_assert(std::is_move_constructible_v<typename M::node_type>);
    static_assert(std::is_move_assignable_v<typename M::node_type>);
    NO(D(M&).insert(D(typename M::node_type&)));
    // copies of user objects are returned by value, not as handles into the container
    static_assert(!std::is_lvalue_reference_v<decltype(D(M&).hash_function())> || std::is_const_v<std::remove_reference_t<decltype(D(M&).hash_function())>>);
    static_assert(!std::is_lvalue_reference_v<decltype(D(M&).key_eq())> || std::is_const_v<std::remove_reference_t<decltype(D(M&).key_eq())>>);
    SAME(decltype(D(const M&).size()), typename M::size_type);
    SAME(decltype(D(const M&).empty()), bool);
    SAME(decltype(D(const M&).contains(D(const K&))), bool);
    SAME(decltype(D(const M&).count(D(const K&))), typename M::size_type);
    SAME(decltype(D(M&).erase(D(const K&))), typename M::size_type);
    SAME(decltype(D(M&).insert(D(const V&))), std::pair<I, bool>);
    SAME(decltype(D(M&).emplace(D(const V&))), std::pair<I, bool>);
    SAME(decltype(D(M&).extract(D(const K&))), typename M::node_type);
}
template<class M, class Q> void no_foreign() {
    NO(D(M&).find(D(const Q&)));
    NO(D(const M&).find(D(const Q&)));
    NO(D(const M&).contains(D(const Q&)));
    NO(D(const M&).count(D(const Q&)));
    NO(D(M&).erase(D(const Q&)));
    NO(D(M&).extract(D(const Q&)));
    NO(D(const M&).equal_range(D(const Q&)));
}
template<class M, class Q> void foreign() {
    YES(D(M&).find(D(const Q&)));
    YES(D(const M&).find(D(const Q&)));
    YES(D(const M&).contains(D(const Q&)));
    YES(D(const M&).count(D(const Q&)));
    YES(D(M&).erase(D(const Q&)));
}
template<class M> void map_facts() {
    using K = typename M::key_type;
    using T = typename M::mapped_type;
    using V = typename M::value_type;
    using I = typename M::iterator;
    SAME(V, std::pair<const K, T>);
    SAME(decltype(*D(I&)), V&);
    SAME(decltype(D(I&).operator->()), V*);
    static_assert(!std::is_assignable_v<decltype((D(I&)->first)), K>);
    static_assert(!std::is_assignable_v<decltype(((*D(I&)).first)), K>);
    static_assert(std::is_assignable_v<decltype((D(I&)->second)), T>);
    static_assert(!std::is_assignable_v<decltype((D(typename M::const_iterator&)->second)), T>);
    SAME(decltype(D(M&).at(D(const K&))), T&);
    SAME(decltype(D(const M&).at(D(const K&))), const T&);
    SAME(decltype(D(M&)[D(const K&)]), T&);
    MUT([D(const K&)]);
    MUT(.try_emplace(D(const K&)));
    MUT(.insert_or_assign(D(const K&), D(T)));
    common<M>();
}
template<class M> void set_facts() {
    using K = typename M::key_type;
    using I = typename M::iterator;
    SAME(typename M::value_type, K);
    SAME(decltype(*D(I&)), const K&);
    SAME(decltype(D(I&).operator->()), const K*);
    static_assert(!std::is_assignable_v<decltype(*D(I&)), K>);
    common<M>();
}
template<class M, class K, class T> void parallel_callbacks(M& m, const M& c, const K& k, T t) {
    using V = typename M::value_type;
    c.if_contains(k, CB<const V&>());
    m.if_contains(k, CB<const V&>());
    c.if_contains_unsafe(k, CB<const V&>());
    c.for_each(CB<const V&, void>());
    c.with_submap(0, CB<const typename M::EmbeddedSet&, void>());
    MUT(.with_submap_m(0, CB<typename M::EmbeddedSet&, void>()));
    MUT(.modify_if(D(const K&), CB<V&>()));
    MUT(.erase_if(D(const K&), CB<V&>()));
}
template<class M, class K, class T> void parallel_map_callbacks(M& m, const K& k, T t) {
    using V = typename M::value_type;
    m.for_each_m(CB<V&, void>());
    MUT(.for_each_m(CB<V&, void>()));
    m.modify_if(k, CB<V&>());
    m.erase_if(k, CB<V&>());
    m.try_emplace_l(k, CB<V&, void>(), t);
    m.lazy_emplace_l(k, CB<V&, void>(), [&](const auto& ctor) { ctor(k, t); });
    MUT(.try_emplace_l(D(const K&), CB<V&, void>(), D(T)));
    MUT(.lazy_emplace_l(D(const K&), CB<V&, void>(), 0));
}
template<class G> void guard() {
    static_assert(!std::is_copy_constructible_v<G>, "a lock guard cannot be copied");
    static_assert(!std::is_copy_assignable_v<G>, "a lock guard cannot be copied");
}
using FM = gtl::flat_hash_map<KA, VN, H0<KA>, E0<KA>>;
using NM = gtl::node_hash_map<KA, VN, H0<KA>, E0<KA>>;
using FS = gtl::flat_hash_set<KA, H0<KA>, E0<KA>>;
using NS = gtl::node_hash_set<KA, H0<KA>, E0<KA>>;
using PFM = gtl::parallel_flat_hash_map<KA, VD, H0<KA>, E0<KA>, A0<std::pair<const KA, VD>>, 2, std::shared_mutex>;
using PNM = gtl::parallel_node_hash_map<KA, VD, H0<KA>, E0<KA>, A0<std::pair<const KA, VD>>, 2, std::mutex>;
using PFS = gtl::parallel_flat_hash_set<KA, H0<KA>, E0<KA>, A0<KA>, 2, std::shared_mutex>;
using PNS = gtl::parallel_node_hash_set<KA, H0<KA>, E0<KA>, A0<KA>, 2, std::mutex>;
template void map_facts<gtl::flat_hash_map<KA, VD, H0<KA>, E0<KA>>>();
template void map_facts<gtl::node_hash_map<KA, VD, H0<KA>, E0<KA>>>();
template void map_facts<gtl::flat_hash_map<std::string, int>>();
template void map_facts<gtl::node_hash_map<std::string, int>>();
template void set_facts<FS>();
template void set_facts<NS>();
template void set_facts<gtl::flat_hash_set<std::string>>();
template void set_facts<gtl::node_hash_set<int>>();
template void map_facts<PFM>();
template void map_facts<PNM>();
template void set_facts<PFS>();
template void set_facts<PNS>();
template void parallel_callbacks(PFM&, const PFM&, const KA&, VD);
template void parallel_callbacks(PNM&, const PNM&, const KA&, VD);
template void parallel_callbacks(PFS&, const PFS&, const KA&, VD);
template void parallel_callbacks(PNS&, const PNS&, const KA&, VD);
template void parallel_map_callbacks(PFM&, const KA&, VD);
template void parallel_map_callbacks(PNM&, const KA&, VD);
// function objects that are not transparent accept the key type only
template void no_foreign<FM, Q1>();
template void no_foreign<NM, Q1>();
template void no_foreign<FS, Q1>();
template void no_foreign<NS, Q1>();
template void no_foreign<PFM, Q1>();
template void no_foreign<PNS, Q1>();
template void no_foreign<gtl::flat_hash_map<KA, VN, HT, E0<KA>>, Q1>();
template void no_foreign<gtl::flat_hash_set<KA, H0<KA>, ET>, Q1>();
template void no_foreign<gtl::flat_hash_set<std::string, std::hash<std::string>, std::equal_to<std::string>>, std::string_view>();
template void foreign<gtl::flat_hash_map<KA, VN, HT, ET>, Q1>();
template void foreign<gtl::node_hash_set<KA, HT, ET>, Q1>();
template void foreign<gtl::parallel_flat_hash_map<KA, VN, HT, ET>, Q1>();
template void foreign<gtl::flat_hash_map<std::string, int>, std::string_view>();
template void foreign<gtl::flat_hash_set<std::string>, std::string_view>();
// lock guards
template<class L> void guards() {
    guard<typename L::UniqueLock>();
    guard<typename L::SharedLock>();
    guard<typename L::ReadWriteLock>();
    guard<typename L::UniqueLocks>();
    guard<typename L::SharedLocks>();
}
template void guards<gtl::LockableImpl<std::mutex>>();
template void guards<gtl::LockableImpl<std::shared_mutex>>();
template void guards<gtl::LockableImpl<MX>>();
// non-throwing moves are advertised when, and only when, the parts guarantee them
template<class M> void quiet() {
    static_assert(std::is_nothrow_move_constructible_v<M>, "moving a container does not throw");
    static_assert(std::is_nothrow_move_assignable_v<M>, "moving a container does not throw");
    static_assert(std::is_nothrow_swappable_v<M>, "swapping containers does not throw");
}
template void quiet<FM>();
template void quiet<NM>();
template void quiet<FS>();
template void quiet<NS>();
template void quiet<gtl::flat_hash_map<int, std::string>>();
template void quiet<gtl::node_hash_set<std::string>>();
static_assert(!std::is_nothrow_move_constructible_v<gtl::flat_hash_map<KA, VN, HThr<KA>, E0<KA>>>, "a throwing hash makes moving potentially throwing");
static_assert(!std::is_nothrow_move_constructible_v<gtl::flat_hash_map<KA, VN, H0<KA>, EThr<KA>>>, "a throwing predicate makes moving potentially throwing");
static_assert(!std::is_nothrow_move_assignable_v<gtl::flat_hash_map<KA, VN, H0<KA>, E0<KA>, A2<std::pair<const KA, VN>>>>, "an allocator that does not propagate makes move assignment potentially throwing");
