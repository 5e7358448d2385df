#include <gtl/btree.hpp>
#include "min.h"
template<class M, class K> void reads(const M& m, const K& k) {
    use(m.size(), m.empty(), m.max_size(), m.begin(), m.end(), m.cbegin(), m.cend(), m.rbegin(), m.rend(), m.crbegin(), m.crend());
    use(m.find(k), m.contains(k), m.count(k), m.equal_range(k), m.lower_bound(k), m.upper_bound(k), m.key_comp(), m.value_comp(), m.get_allocator());
    for (auto& e : m) use(e);
    for (auto it = m.cbegin(); it != m.cend(); ++it) use(*it, it.operator->());
    for (auto it = m.rbegin(); it != m.rend(); ++it) use(*it);
    auto i = m.end();
    --i; i--; i++;
    use(m.value_comp()(*m.begin(), *m.begin()));
    m.verify();
}
template<class M, class K> void erases(M& m, const K& k) {
    use(m.find(k), m.equal_range(k), m.lower_bound(k), m.upper_bound(k), m.begin(), m.end(), m.rbegin(), m.rend(), m.erase(k));
    m.erase(m.begin());
    m.erase(m.cbegin());
    m.erase(m.begin(), m.end());
    m.erase(m.cbegin(), m.cend());
    auto nh = m.extract(k);
    auto n2 = m.extract(m.cbegin());
    auto n3 = m.extract(m.begin());
    typename M::node_type n4;
    n4 = std::move(nh);
    use(n4.empty(), !!n4, n4.get_allocator());
    m.insert(std::move(n4));
    m.insert(m.cbegin(), std::move(n3));
    m.clear();
    m.swap(m);
    M m2(std::move(m));
    erase_if(m, [](const typename M::value_type&) { return true; });
    typename M::iterator it;
    typename M::const_iterator ci = it;
    use(it == it, it != it, ci == it, ci != it);
}
template<class M> void merges(M& m) {
    m.merge(m);
    m.merge(std::move(m));
}
template<class M> void massign(M& m) {
    M m2(std::move(m));
    m2 = std::move(m);
    using std::swap;
    swap(m, m2);
}
template<class M> void copies(const M& a) {
    M b(a);
    b = a;
    use(a == b, a != b);
    M e(a.key_comp(), a.get_allocator());
    M g(a.begin(), a.end(), a.key_comp(), a.get_allocator());
    b.insert(a.begin(), a.end());
}
template<class M> void orders(const M& a) { use(a < a, a > a, a <= a, a >= a); }
template<class M> void default_ctors(const M& a) {
    using VT = typename M::value_type;
    const VT& e = any<const VT&>();
    M x;
    M x1(a.key_comp());
    M x2(a.begin(), a.end());
    M x3({ e, e });
    M x4({ e, e }, a.key_comp());
    M x5({ e, e }, a.key_comp(), a.get_allocator());
    x = { e, e };
}
template<class M, class KK, bool multi> void map_moveonly() {
    M& m = any<M&>();
    KK& k = any<KK&>();
    using V = typename M::mapped_type;
    reads(m, k);
    erases(m, k);
    m.emplace(any<KK>(), any<V>());
    m.emplace(std::piecewise_construct, std::forward_as_tuple(1), std::forward_as_tuple(2));
    m.emplace_hint(m.cbegin(), any<KK>(), any<V>());
    m.insert(any<typename M::value_type>());
    m.insert(m.cbegin(), any<typename M::value_type>());
    auto nh = m.extract(k);
    use(nh.key(), nh.mapped());
    if constexpr (!multi) {
        use(m.at(k), std::as_const(m).at(k));
        m.try_emplace(any<KK>(), 1);
        m.try_emplace(k, 1);
        m.try_emplace(m.cbegin(), any<KK>(), 1);
        m.try_emplace(m.cbegin(), k, 1);
        auto r = m.insert(std::move(nh));
        use(r.position, r.inserted, r.node);
        use(m.emplace(any<KK>(), any<V>()).second);
    }
}
template<class M> void map_copyable() {
    M& m = any<M&>();
    const typename M::value_type& e = any<const typename M::value_type&>();
    copies(m);
    massign(m);
    merges(m);
    m.insert(e);
    m.insert(m.cbegin(), e);
    m.insert({ e, e });
    m.insert(&e, &e + 1);
    m.insert(InIt<typename M::value_type>{ &e }, InIt<typename M::value_type>{ &e });
    m.emplace(e);
    m.emplace(e.first, e.second);
}
template<class M> void set_moveonly() {
    M& m = any<M&>();
    using K = typename M::key_type;
    reads(m, any<K&>());
    erases(m, any<K&>());
    merges(m);
    m.emplace(any<K>());
    m.emplace(1);
    m.emplace_hint(m.cbegin(), any<K>());
    m.insert(any<K>());
    m.insert(m.cbegin(), any<K>());
    massign(m);
}
template<class M> void set_copyable() {
    M& m = any<M&>();
    using K = typename M::key_type;
    const K& k = any<const K&>();
    copies(m);
    m.insert(k);
    m.insert(m.cbegin(), k);
    m.insert({ k, k });
    m.insert(InIt<K>{ &k }, InIt<K>{ &k });
    m.emplace(k);
}
template<class M, bool multi> void het(M& m, const M& c, const Q1& q) {
    use(m.find(q), c.find(q), c.contains(q), c.count(q), c.equal_range(q), m.equal_range(q), m.lower_bound(q), c.lower_bound(q), m.upper_bound(q), c.upper_bound(q), m.erase(q));
    auto nh = m.extract(q);
}
template<template<class...> class C, bool multi> void maps() {
    map_moveonly<C<KA, VM, L1, A1<std::pair<const KA, VM>>>, KA, multi>();
    map_moveonly<C<KA, VM, L0<KA>, A0<std::pair<const KA, VM>>>, KA, multi>();
    map_moveonly<C<KA, VM, L0<KA>>, KA, multi>();
    massign(any<C<KA, VM, L1, A1<std::pair<const KA, VM>>>&>());
    massign(any<C<KA, VM, L1, AP<std::pair<const KA, VM>>>&>());
    merges(any<C<KA, VM, L1>&>());
    map_copyable<C<KA, VN, L1, A1<std::pair<const KA, VN>>>>();
    map_copyable<C<KA, VN, L0<KA>, AP<std::pair<const KA, VN>>>>();
    default_ctors(any<C<KA, VN, L0<KA>, A0<std::pair<const KA, VN>>>&>());
    orders(any<C<int, std::string>&>());
    het<C<KA, VN, LT>, multi>(any<C<KA, VN, LT>&>(), any<const C<KA, VN, LT>&>(), any<const Q1&>());
    using S = C<std::string, int>;
    use(any<S&>().find(std::string_view("a")), any<S&>().emplace("a", 1), any<S&>().insert({ "a", 1 }), any<S&>().contains("a"), any<S&>().erase("a"));
    S s{ { "a", 1 }, { "b", 2 } };
    using P = C<std::string, int, std::greater<std::string>>;
    use(any<P&>().find("a"));
    using Pt = C<int*, int>;
    use(any<Pt&>().find(nullptr));
}
template<template<class...> class C, bool multi> void sets() {
    set_moveonly<C<KB, L1, A1<KB>>>();
    set_moveonly<C<KB, L0<KB>, A0<KB>>>();
    set_moveonly<C<KB, L0<KB>, AP<KB>>>();
    set_moveonly<C<KB, L0<KB>>>();
    set_copyable<C<KA, L1, A1<KA>>>();
    set_copyable<C<KA, L0<KA>>>();
    default_ctors(any<C<KA, L0<KA>, A0<KA>>&>());
    orders(any<C<int>&>());
    het<C<KA, LT>, multi>(any<C<KA, LT>&>(), any<const C<KA, LT>&>(), any<const Q1&>());
    using S = C<std::string>;
    use(any<S&>().find(std::string_view("a")), any<S&>().emplace("a"), any<S&>().insert("a"), any<S&>().contains("a"), any<S&>().erase("a"));
    C<std::unique_ptr<int>> up;
    up.insert(std::make_unique<int>(1));
    C<double> d{ 1.0 };
    C<std::pair<int, std::string>> p;
    p.insert({ 1, "a" });
}
void go() {
    maps<gtl::btree_map, false>();
    maps<gtl::btree_multimap, true>();
    sets<gtl::btree_set, false>();
    sets<gtl::btree_multiset, true>();
    using D = gtl::btree_map<KA, VD, L1, A1<std::pair<const KA, VD>>>;
    use(any<D&>()[any<KA>()], any<D&>()[any<const KA&>()]);
    any<D&>().try_emplace(any<KA>());
    using T = gtl::btree_map<KA, VN, LT>;
    use(any<T&>().at(any<Q1&>()), any<const T&>().at(any<Q1&>()));
    using MS = gtl::btree_multiset<int>;
    using US = gtl::btree_set<int>;
    any<US&>().merge(any<MS&>());
    any<MS&>().merge(any<US&>());
    static_assert(std::is_same_v<std::iterator_traits<US::iterator>::iterator_category, std::bidirectional_iterator_tag>);
}
