#define _GLIBCXX_USE_TBB_PAR_BACKEND 0
#include <execution>
#include "min.h"
#include <gtl/phmap.hpp>
template<class M, class K> void reads(const M& m, const K& k) {
    use(m.size(), m.empty(), m.capacity(), m.max_size(), m.bucket_count(), m.load_factor(), m.max_load_factor(), M::subcnt(), M::subidx(1));
    use(m.begin(), m.end(), m.cbegin(), m.cend(), m.find(k), m.contains(k), m.count(k), m.equal_range(k));
    use(m.hash_function(), m.key_eq(), m.get_allocator(), m.hash(k), m.find(k, m.hash(k)), m.contains(k, m.hash(k)));
    for (auto& e : m) use(e);
    for (auto it = m.cbegin(); it != m.cend(); ++it) use(*it, it.operator->());
    m.prefetch(k);
    m.prefetch_hash(1);
    use(m.if_contains(k, [](const typename M::value_type&) {}), m.if_contains(k, [](const auto&) {}));
    m.if_contains_unsafe(k, [](const typename M::value_type&) {});
    m.for_each([](const typename M::value_type&) {});
    m.with_submap(0, [](const auto&) {});
    m.for_each(std::execution::seq, [](const typename M::value_type&) {});
}
template<class M, class K> void erases(M& m, const K& k) {
    use(m.find(k), m.equal_range(k), m.begin(), m.end(), m.erase(k));
    m.erase(m.begin());
    m.erase(m.cbegin());
    m._erase(m.begin());
    m._erase(m.cbegin());
    use(m.erase_if(k, [](auto&) { return true; }), m.modify_if(k, [](auto&) {}));
    auto nh = m.extract(k);
    typename M::node_type n4;
    n4 = std::move(nh);
    auto r = m.insert(std::move(n4));
    use(r.position, r.inserted, r.node);
    m.insert(m.cbegin(), std::move(n4));
    m.clear();
    m.clear(0);
    m.rehash(10);
    m.reserve(10);
    m.swap(m);
    M m2(std::move(m));
    m.merge(m2);
    m.merge(std::move(m2));
    m.with_submap_m(0, [](auto&) {});
    use(m.get_inner(0));
    typename M::iterator it;
    typename M::const_iterator ci = it;
    use(it == it, it != it, ci == ci);
}
template<class M> void massign(M& m) {
    M m2(std::move(m));
    m2 = std::move(m);
    using std::swap;
    swap(m, m2);
}
template<class M, class KK> void map_moveonly() {
    M& m = any<M&>();
    KK& k = any<KK&>();
    reads(m, k);
    erases(m, k);
    using V = typename M::mapped_type;
    using VT = typename M::value_type;
    m.for_each_m([](VT&) {});
    m.for_each_m(std::execution::seq, [](VT&) {});
    use(m.emplace(any<KK>(), any<V>()).second);
    m.emplace(std::piecewise_construct, std::forward_as_tuple(1), std::forward_as_tuple(2));
    m.emplace_with_hash(size_t(1), any<KK>(), any<V>());
    m.emplace_hint(m.cbegin(), any<KK>(), any<V>());
    m.emplace_hint_with_hash(size_t(1), m.cbegin(), any<KK>(), any<V>());
    m.try_emplace(any<KK>(), 1);
    m.try_emplace(any<KK>(), any<V>());
    m.try_emplace(m.cbegin(), any<KK>(), 1);
    m.try_emplace_with_hash(size_t(1), any<KK>(), 1);
    m.try_emplace_p(any<KK>(), 1);
    use(m.try_emplace_l(any<KK>(), [](VT&) {}, 1), m.try_emplace_l(any<KK>(), [](VT&) {}, any<V>()));
    m.insert(any<std::pair<KK, V>>());
    m.lazy_emplace(k, [&](const typename M::constructor& c) { c(any<KK>(), any<V>()); });
    m.lazy_emplace_with_hash(k, size_t(1), [&](const typename M::constructor& c) { c(any<KK>(), any<V>()); });
    use(m.lazy_emplace_l(k, [](VT&) {}, [&](const typename M::constructor& c) { c(any<KK>(), any<V>()); }));
    m.emplace_single(k, [&](const typename M::constructor& c) { c(any<KK>(), any<V>()); });
    m.emplace_single_with_hash(k, size_t(1), [&](const typename M::constructor& c) { c(any<KK>(), any<V>()); });
    use(m.at(k), std::as_const(m).at(k));
    auto nh = m.extract(k);
    use(nh.key(), nh.mapped());
}
template<class M> void map_assign() {
    M& m = any<M&>();
    using V = typename M::mapped_type;
    using KK = typename M::key_type;
    m.insert_or_assign(any<KK>(), any<V>());
    m.insert_or_assign(m.cbegin(), any<KK>(), any<V>());
}
template<class M> void map_assign_ck() {
    M& m = any<M&>();
    using V = typename M::mapped_type;
    using KK = typename M::key_type;
    using VT = typename M::value_type;
    const KK& k = any<const KK&>();
    m.insert_or_assign(k, any<V>());
    m.insert_or_assign(m.cbegin(), k, any<V>());
    m.try_emplace(k, 1);
    m.try_emplace(m.cbegin(), k, 1);
    m.try_emplace_with_hash(size_t(1), k, 1);
    m.try_emplace_p(k, 1);
    use(m.try_emplace_l(k, [](VT&) {}, 1));
}
template<class M> void copies(const M& a) {
    M b(a);
    M c(a, a.get_allocator());
    b = a;
    use(a == b, a != b);
    M d(std::move(b), a.get_allocator());
    M e(10, a.hash_function(), a.key_eq(), a.get_allocator());
    M g(a.begin(), a.end(), 10, a.hash_function(), a.key_eq(), a.get_allocator());
    b.insert(a.begin(), a.end());
}
template<class M> void map_copyable() {
    M& m = any<M&>();
    using V = typename M::mapped_type;
    using KK = typename M::key_type;
    const KK& k = any<const KK&>();
    const V& v = any<const V&>();
    const typename M::value_type& e = any<const typename M::value_type&>();
    copies(m);
    massign(m);
    m.insert(e);
    m.insert(m.cbegin(), e);
    m.insert({ k, v });
    m.insert({ e, e });
    m.insert(&e, &e + 1);
    m.insert(InIt<typename M::value_type>{ &e }, InIt<typename M::value_type>{ &e });
    m.emplace(e);
    m.emplace(k, v);
    m.insert_or_assign(k, v);
}
template<class M> void default_ctors(const M& a) {
    using VT = typename M::value_type;
    const VT& e = any<const VT&>();
    M x;
    M x1(10);
    M x2(a.get_allocator());
    M x3(10, a.get_allocator());
    M x4(a.begin(), a.end());
    M x5(a.begin(), a.end(), 10);
    M x6(a.begin(), a.end(), a.get_allocator());
    M x7(a.begin(), a.end(), 10, a.get_allocator());
    M e2(10, a.hash_function(), a.get_allocator());
    M g2(a.begin(), a.end(), 10, a.hash_function(), a.get_allocator());
    M y1({ e, e });
    y1 = { e, e };
    M y2({ e, e }, 10);
    M y3({ e, e }, 10, a.hash_function(), a.key_eq(), a.get_allocator());
    M y4({ e, e }, a.get_allocator());
    M y5({ e, e }, 10, a.get_allocator());
    M y6({ e, e }, 10, a.hash_function(), a.get_allocator());
}
template<class M> void set_moveonly() {
    M& m = any<M&>();
    using K = typename M::key_type;
    K& k = any<K&>();
    reads(m, k);
    erases(m, k);
    use(m.emplace(any<K>()).second);
    m.emplace(1);
    m.emplace_with_hash(size_t(1), any<K>());
    m.emplace_hint(m.cbegin(), any<K>());
    m.emplace_hint_with_hash(size_t(1), m.cbegin(), any<K>());
    m.insert(any<K>());
    m.insert(m.cbegin(), any<K>());
    m.lazy_emplace(k, [&](const typename M::constructor& c) { c(any<K>()); });
    m.lazy_emplace_with_hash(k, size_t(1), [&](const typename M::constructor& c) { c(any<K>()); });
    m.emplace_single(k, [&](const typename M::constructor& c) { c(any<K>()); });
    use(m.lazy_emplace_l(k, [](auto&) {}, [&](const typename M::constructor& c) { c(any<K>()); }));
}
template<class M> void set_copyable() {
    M& m = any<M&>();
    using K = typename M::key_type;
    const K& k = any<const K&>();
    copies(m);
    massign(m);
    m.insert(k);
    m.insert(m.cbegin(), k);
    m.insert({ k, k });
    m.insert(InIt<K>{ &k }, InIt<K>{ &k });
    m.emplace(k);
}
template<class M> void het(M& m, const M& c, const Q1& q) {
    using VT = typename M::value_type;
    use(m.find(q), c.find(q), c.contains(q), c.count(q), c.equal_range(q), m.equal_range(q), m.erase(q), c.hash(q));
    use(c.find(q, size_t(1)), c.contains(q, size_t(1)), c.if_contains(q, [](const VT&) {}), m.modify_if(q, [](auto&) {}), m.erase_if(q, [](auto&) { return true; }));
    auto nh = m.extract(q);
    c.prefetch(q);
}
template<template<class, class, class, class, class, size_t, class, class...> class C, class MT> void maps() {
    map_moveonly<C<K1, VM, H2, E2, A2<std::pair<const K1, VM>>, 2, MT>, K1>();
    map_moveonly<C<K1, VC, H0<K1>, E0<K1>, A0<std::pair<const K1, VC>>, 0, MT>, K1>();
    map_moveonly<C<K1, VM, H0<K1>, E0<K1>, AP<std::pair<const K1, VM>>, 4, MT>, K1>();
    map_assign<C<K1, VM, H2, E2, A2<std::pair<const K1, VM>>, 2, MT>>();
    map_assign_ck<C<K1, VM, H2, E2, A2<std::pair<const K1, VM>>, 2, MT>>();
    massign(any<C<K1, VM, H2, E2, A2<std::pair<const K1, VM>>, 2, MT>&>());
    map_copyable<C<K1, VN, H2, E2, A2<std::pair<const K1, VN>>, 2, MT>>();
    map_copyable<C<K1, VN, H0<K1>, E0<K1>, AP<std::pair<const K1, VN>>, 2, MT>>();
    using D = C<K1, VD, H2, E2, A2<std::pair<const K1, VD>>, 2, MT>;
    use(any<D&>()[any<K1>()], any<D&>()[any<const K1&>()]);
    any<D&>().try_emplace(any<K1>());
    default_ctors(any<C<K1, VN, H0<K1>, E0<K1>, A0<std::pair<const K1, VN>>, 3, MT>&>());
    using T = C<K1, VN, HT, ET, A0<std::pair<const K1, VN>>, 3, MT>;
    het(any<T&>(), any<const T&>(), any<const Q1&>());
    use(any<T&>().at(any<Q1&>()), any<const T&>().at(any<Q1&>()));
}
template<template<class, class, class, class, size_t, class, class...> class C, class MT> void sets() {
    set_moveonly<C<K1, H2, E2, A2<K1>, 2, MT>>();
    set_moveonly<C<K1, H0<K1>, E0<K1>, A0<K1>, 0, MT>>();
    set_moveonly<C<K1, H0<K1>, E0<K1>, AP<K1>, 4, MT>>();
    massign(any<C<K1, H2, E2, A2<K1>, 2, MT>&>());
    massign(any<C<K1, H2, E2, std::allocator<K1>, 2, MT>&>());
    set_copyable<C<K1, H2, E2, A2<K1>, 2, MT>>();
    default_ctors(any<C<K1, H0<K1>, E0<K1>, A0<K1>, 3, MT>&>());
    using T = C<K1, HT, ET, A0<K1>, 3, MT>;
    het(any<T&>(), any<const T&>(), any<const Q1&>());
}
template<class MT> void all() {
    maps<gtl::parallel_flat_hash_map, MT>();
    maps<gtl::parallel_node_hash_map, MT>();
    sets<gtl::parallel_flat_hash_set, MT>();
    sets<gtl::parallel_node_hash_set, MT>();
}
void go() {
    all<MUTEX>();
    // every template argument but the first may be defaulted
    gtl::parallel_flat_hash_map<int, int> a;
    gtl::parallel_node_hash_map<int, std::string> b;
    gtl::parallel_flat_hash_set<int> c;
    gtl::parallel_node_hash_set<std::string> d;
    gtl::parallel_flat_hash_map_m<int, int> e;
    gtl::parallel_node_hash_map_m<int, std::string> f;
    gtl::parallel_flat_hash_set_m<int> g;
    gtl::parallel_node_hash_set_m<std::string> h;
    a[1] = 2;
    e[1] = 2;
    d.insert("a");
    h.insert("a");
    use(b.find(1), f.find(1), c.contains(1), g.contains(1));
    // an auxiliary container per submap
    using AC = gtl::parallel_flat_hash_map<int, int, gtl::Hash<int>, std::equal_to<int>, std::allocator<std::pair<const int, int>>, 2, MUTEX, std::vector<int>>;
    AC& ac = any<AC&>();
    ac.if_contains(1, [](const AC::value_type&, auto& l) { use(l); });
    ac.modify_if(1, [](AC::value_type&, auto& l) { use(l); });
    ac.lazy_emplace_l(1, [](AC::value_type&, auto& l) { use(l); }, [](const AC::constructor& c, auto& l) { c(1, 2); use(l); return std::optional<int>(); });
    ac.clear();
    use(ac.size());
}
