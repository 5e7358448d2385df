#include <gtl/phmap.hpp>
#include "min.h"
// const interface, common to every instantiation
template<class M, class K> void reads(const M& m, const K& k) {
    use(m.size(), m.empty(), m.capacity(), m.max_size(), m.bucket_count(), m.load_factor(), m.max_load_factor());
    use(m.begin(), m.end(), m.cbegin(), m.cend(), m.find(k), m.contains(k), m.count(k), m.equal_range(k));
    use(m.hash_function(), m.key_eq(), m.get_allocator(), m.hash(k), m.find(k, m.hash(k)), m.contains(k, m.hash(k)));
    for (auto& e : m) use(e);
    for (auto it = m.cbegin(); it != m.cend(); ++it) use(*it, it.operator->());
    m.prefetch(k);
}
template<class M, class K> void erases(M& m, const K& k) {
    use(m.find(k), m.equal_range(k), m.begin(), m.end(), m.erase(k), m.contains(k));
    m.erase(m.begin());
    m.erase(m.cbegin());
    m._erase(m.begin());
    m._erase(m.cbegin());
    m.erase(m.begin(), m.end());
    m.erase(m.cbegin(), m.cend());
    auto nh = m.extract(k);
    auto n2 = m.extract(m.cbegin());
    auto n3 = m.extract(m.begin());
    typename M::node_type n4;
    n4 = std::move(nh);
    use(n4.empty(), !!n4, n4.get_allocator());
    auto r = m.insert(std::move(n4));
    use(r.position, r.inserted, r.node);
    m.insert(m.cbegin(), std::move(n3));
    m.clear();
    m.rehash(10);
    m.reserve(10);
    m.max_load_factor(0.5f);
    m.swap(m);
    M m2(std::move(m));
    m.merge(m2);
    m.merge(std::move(m2));
    erase_if(m, [](const typename M::value_type&) { return true; });
    erase_if(m, [](auto& x) { use(x); return true; });
    typename M::iterator it;
    typename M::const_iterator ci = it;
    use(it == it, it != it, ci == it, ci != it);
}
template<class M> void massign(M& m) {
    m = std::move(m);
    M m2(std::move(m));
    m2 = std::move(m);
    using std::swap;
    swap(m, m2);
}
template<class M> void copies(const M& a) {
    M b(a);
    M c(a, a.get_allocator());
    b = a;
    use(a == b, a != b);
    M d(std::move(b), a.get_allocator());
    M e(10, a.hash_function(), a.key_eq(), a.get_allocator());
    M g(a.begin(), a.end(), 10, a.hash_function(), a.key_eq(), a.get_allocator());
    b.insert(a.begin(), a.end());
}
template<class M> void default_ctors(const M& a) {
    M x;
    M x1(10);
    M x2(a.get_allocator());
    M x3(10, a.get_allocator());
    M x4(a.begin(), a.end());
    M x5(a.begin(), a.end(), 10);
    M x6(a.begin(), a.end(), a.get_allocator());
    M e2(10, a.hash_function(), a.get_allocator());
    M g2(a.begin(), a.end(), 10, a.hash_function(), a.get_allocator());
    M x7(a.begin(), a.end(), 10, a.get_allocator());
    M y;
    y = M();
    static_assert(std::is_default_constructible_v<M>);
}
template<class M, class KK> void map_moveonly() {
    // key and value move-only, neither default constructible nor assignable: moves must do
    M& m = any<M&>();
    KK& k = any<KK&>();
    reads(m, k);
    erases(m, k);
    using V = typename M::mapped_type;
    use(m.emplace(any<KK>(), any<V>()).second);
    m.emplace(std::piecewise_construct, std::forward_as_tuple(1), std::forward_as_tuple(2));
    m.emplace_with_hash(size_t(1), any<KK>(), any<V>());
    m.emplace_hint(m.cbegin(), any<KK>(), any<V>());
    m.emplace_hint_with_hash(size_t(1), m.cbegin(), any<KK>(), any<V>());
    m.try_emplace(any<KK>(), 1);
    m.try_emplace(any<KK>(), any<V>());
    m.try_emplace(m.cbegin(), any<KK>(), 1);
    m.insert(any<std::pair<KK, V>>());
    m.lazy_emplace(k, [&](const typename M::constructor& c) { c(any<KK>(), any<V>()); });
    m.lazy_emplace_with_hash(k, size_t(1), [&](const typename M::constructor& c) { c(any<KK>(), any<V>()); });
    use(m.at(k), std::as_const(m).at(k));
    auto nh = m.extract(k);
    use(nh.key(), nh.mapped());
}
template<class M> void map_assign() {
    M& m = any<M&>();
    using V = typename M::mapped_type;
    using KK = typename M::key_type;
    m.insert_or_assign(any<KK>(), any<V>());
    m.insert_or_assign(m.cbegin(), any<KK>(), any<V>());
}
template<class M> void map_assign_ck() {
    M& m = any<M&>();
    using V = typename M::mapped_type;
    using KK = typename M::key_type;
    const KK& k = any<const KK&>();
    m.insert_or_assign(k, any<V>());
    m.insert_or_assign(m.cbegin(), k, any<V>());
    m.try_emplace(k, 1);
    m.try_emplace(m.cbegin(), k, 1);
}
template<class M> void map_copyable() {
    M& m = any<M&>();
    using V = typename M::mapped_type;
    using KK = typename M::key_type;
    const KK& k = any<const KK&>();
    const V& v = any<const V&>();
    const typename M::value_type& e = any<const typename M::value_type&>();
    copies(m);
    massign(m);
    m.insert(e);
    m.insert(m.cbegin(), e);
    m.insert({ k, v });
    m.insert({ e, e });
    m.insert(&e, &e + 1);
    m.insert(InIt<typename M::value_type>{ &e }, InIt<typename M::value_type>{ &e });
    m.emplace(e);
    m.emplace(k, v);
    m.insert_or_assign(k, v);
}
template<class M> void map_default() {
    M& m = any<M&>();
    using KK = typename M::key_type;
    use(m[any<KK>()]);
    m.try_emplace(any<KK>());
}
template<class M> void map_default_ck() {
    M& m = any<M&>();
    use(m[any<const typename M::key_type&>()]);
    m.try_emplace(any<const typename M::key_type&>());
}
template<class M> void map_il(const M& a) {
    using VT = typename M::value_type;
    const VT& e = any<const VT&>();
    M x1({ e, e });
    x1 = { e, e };
    M x2({ e, e }, 10);
    M x3({ e, e }, 10, a.hash_function(), a.key_eq(), a.get_allocator());
    M x4({ e, e }, a.get_allocator());
    M x5({ e, e }, 10, a.get_allocator());
    M x6({ e, e }, 10, a.hash_function(), a.get_allocator());
}
template<class M> void het(M& m, const M& c, const Q1& q) {
    use(m.find(q), c.find(q), c.contains(q), c.count(q), c.equal_range(q), m.equal_range(q), m.erase(q), c.at(q), m.at(q), c.hash(q));
    use(c.find(q, size_t(1)), c.contains(q, size_t(1)));
    auto nh = m.extract(q);
    c.prefetch(q);
    m.lazy_emplace(q, [&](const typename M::constructor& k) { k(K1(1), VN(2)); });
}
template<template<class...> class C, class KK> void moveonly() {
    map_moveonly<C<KK, VM, H1, E1, A1<std::pair<const KK, VM>>>, KK>();
    map_moveonly<C<KK, VC, H0<KK>, E0<KK>, A0<std::pair<const KK, VC>>>, KK>();
    map_moveonly<C<KK, VM, H0<KK>, E0<KK>>, KK>();
    map_moveonly<C<KK, VM, H0<KK>, E0<KK>, AP<std::pair<const KK, VM>>>, KK>();
    map_assign<C<KK, VM, H1, E1, A1<std::pair<const KK, VM>>>>();
}
template<template<class...> class C> void all() {
    moveonly<C, K1>();
    massign(any<C<K1, VM, H1, E1, A1<std::pair<const K1, VM>>>&>());
    massign(any<C<K1, VM, H1, E1>&>());
    map_assign_ck<C<K1, VM, H1, E1, A1<std::pair<const K1, VM>>>>();
    map_copyable<C<K1, VN, H1, E1, A1<std::pair<const K1, VN>>>>();
    map_copyable<C<K1, VN, H0<K1>, E0<K1>, AP<std::pair<const K1, VN>>>>();
    map_default<C<K1, VD, H0<K1>, E0<K1>>>();
    map_default<C<K1, VD, H1, E1, A1<std::pair<const K1, VD>>>>();
    map_default_ck<C<K1, VD, H1, E1, A1<std::pair<const K1, VD>>>>();
    default_ctors(any<C<K1, VN, H0<K1>, E0<K1>, A0<std::pair<const K1, VN>>>&>());
    map_il(any<C<K1, VN, H0<K1>, E0<K1>, A0<std::pair<const K1, VN>>>&>());
    using T = C<K1, VN, HT, ET>;
    het(any<T&>(), any<const T&>(), any<const Q1&>());
    using S = C<std::string, int>;
    use(any<S&>().find(std::string_view("a")), any<S&>()["a"], any<const S&>().contains("a"), any<S&>().erase("a"));
    any<S&>().try_emplace("a", 1);
    any<S&>().insert_or_assign("a", 1);
    any<S&>().emplace("a", 1);
    any<S&>().insert({ "a", 1 });
    S s{ { "a", 1 }, { "b", 2 } };
    s = { { "a", 1 } };
}
void go() {
    all<gtl::flat_hash_map>();
    all<gtl::node_hash_map>();
    moveonly<gtl::node_hash_map, KM>();
    massign(any<gtl::node_hash_map<KM, VP, H1, E1>&>());
    massign(any<gtl::node_hash_map<KP, VP, H1, E1, AP<std::pair<const KP, VP>>>&>());
    map_default<gtl::node_hash_map<KM, VD, H0<KM>, E0<KM>>>();
    // a node container accepts elements that can never move
    using N = gtl::node_hash_map<KP, VP, H0<KP>, E0<KP>>;
    N& n = any<N&>();
    KP& k = any<KP&>();
    n.emplace(std::piecewise_construct, std::forward_as_tuple(1), std::forward_as_tuple(2, 3));
    reads(n, k);
    erases(n, k);
    use(n.at(k));
    using N2 = gtl::node_hash_map<KM, VP, H0<KM>, E0<KM>>;
    any<N2&>().try_emplace(any<KM>(), 1, 2);
    any<N2&>().try_emplace(any<N2&>().cbegin(), any<KM>(), 1, 2);
    using N3 = gtl::node_hash_map<KM, VP, H0<KM>, E0<KM>, A0<std::pair<const KM, VP>>>;
    any<N3&>().try_emplace(any<KM>(), 1, 2);
    reads(any<N3&>(), any<KM&>());
    erases(any<N3&>(), any<KM&>());
}
