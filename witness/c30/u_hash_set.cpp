#include <gtl/phmap.hpp>
#include "min.h"
template<class M, class K> void reads(const M& m, const K& k) {
    use(m.size(), m.empty(), m.capacity(), m.max_size(), m.bucket_count(), m.load_factor(), m.max_load_factor());
    use(m.begin(), m.end(), m.cbegin(), m.cend(), m.find(k), m.contains(k), m.count(k), m.equal_range(k));
    use(m.hash_function(), m.key_eq(), m.get_allocator(), m.hash(k), m.find(k, m.hash(k)), m.contains(k, m.hash(k)));
    for (auto& e : m) use(e);
    for (auto it = m.cbegin(); it != m.cend(); ++it) use(*it, it.operator->());
    m.prefetch(k);
}
template<class M, class K> void erases(M& m, const K& k) {
    use(m.find(k), m.equal_range(k), m.begin(), m.end(), m.erase(k));
    m.erase(m.begin());
    m.erase(m.cbegin());
    m._erase(m.begin());
    m._erase(m.cbegin());
    m.erase(m.begin(), m.end());
    m.erase(m.cbegin(), m.cend());
    auto nh = m.extract(k);
    auto n3 = m.extract(m.begin());
    typename M::node_type n4;
    n4 = std::move(nh);
    use(n4.empty(), !!n4, n4.get_allocator(), n4.value());
    auto r = m.insert(std::move(n4));
    use(r.position, r.inserted, r.node);
    m.insert(m.cbegin(), std::move(n3));
    m.clear();
    m.rehash(10);
    m.reserve(10);
    m.swap(m);
    M m2(std::move(m));
    m.merge(m2);
    m.merge(std::move(m2));
    erase_if(m, [](const typename M::value_type&) { return true; });
    typename M::iterator it;
    typename M::const_iterator ci = it;
    use(it == it, it != it, ci == it, ci != it);
}
template<class M> void massign(M& m) {
    m = std::move(m);
    M m2(std::move(m));
    m2 = std::move(m);
    using std::swap;
    swap(m, m2);
}
template<class M> void set_moveonly() {
    M& m = any<M&>();
    using K = typename M::key_type;
    K& k = any<K&>();
    reads(m, k);
    erases(m, k);
    use(m.emplace(any<K>()).second);
    m.emplace(1);
    m.emplace_with_hash(size_t(1), any<K>());
    m.emplace_hint(m.cbegin(), any<K>());
    m.emplace_hint_with_hash(size_t(1), m.cbegin(), any<K>());
    m.insert(any<K>());
    m.insert(m.cbegin(), any<K>());
    m.lazy_emplace(k, [&](const typename M::constructor& c) { c(any<K>()); });
    m.lazy_emplace_with_hash(k, size_t(1), [&](const typename M::constructor& c) { c(any<K>()); });
}
template<class M> void set_copyable(const M& a) {
    M& m = any<M&>();
    using K = typename M::key_type;
    const K& k = any<const K&>();
    M b(a);
    M c(a, a.get_allocator());
    b = a;
    use(a == b, a != b);
    M d(std::move(b), a.get_allocator());
    M e(10, a.hash_function(), a.key_eq(), a.get_allocator());
    M g(a.begin(), a.end(), 10, a.hash_function(), a.key_eq(), a.get_allocator());
    m.insert(a.begin(), a.end());
    m.insert(k);
    m.insert(m.cbegin(), k);
    m.insert({ k, k });
    m.insert(InIt<K>{ &k }, InIt<K>{ &k });
    m.emplace(k);
    massign(m);
}
template<class M> void default_ctors(const M& a) {
    using K = typename M::key_type;
    const K& k = any<const K&>();
    M x;
    M x1(10);
    M x2(a.get_allocator());
    M x3(10, a.get_allocator());
    M x4(a.begin(), a.end());
    M x5(a.begin(), a.end(), 10);
    M x6(a.begin(), a.end(), a.get_allocator());
    M x7(a.begin(), a.end(), 10, a.get_allocator());
    M e2(10, a.hash_function(), a.get_allocator());
    M g2(a.begin(), a.end(), 10, a.hash_function(), a.get_allocator());
    M y1({ k, k });
    y1 = { k, k };
    M y2({ k, k }, 10);
    M y3({ k, k }, 10, a.hash_function(), a.key_eq(), a.get_allocator());
    M y4({ k, k }, a.get_allocator());
    M y5({ k, k }, 10, a.get_allocator());
    M y6({ k, k }, 10, a.hash_function(), a.get_allocator());
}
template<class M> void het(M& m, const M& c, const Q1& q) {
    use(m.find(q), c.find(q), c.contains(q), c.count(q), c.equal_range(q), m.equal_range(q), m.erase(q), c.hash(q));
    use(c.find(q, size_t(1)), c.contains(q, size_t(1)));
    auto nh = m.extract(q);
    c.prefetch(q);
    m.lazy_emplace(q, [&](const typename M::constructor& k) { k(K1(1)); });
}
template<template<class...> class C> void all() {
    set_moveonly<C<KM, H1, E1, A1<KM>>>();
    set_moveonly<C<KM, H0<KM>, E0<KM>, A0<KM>>>();
    set_moveonly<C<KM, H0<KM>, E0<KM>, AP<KM>>>();
    set_moveonly<C<KM, H0<KM>, E0<KM>>>();
    massign(any<C<K1, H1, E1, A1<K1>>&>());
    massign(any<C<KM, H1, E1>&>());
    massign(any<C<KM, H1, E1, AP<KM>>&>());
    set_copyable(any<C<K1, H1, E1, A1<K1>>&>());
    set_copyable(any<C<K1, H0<K1>, E0<K1>, AP<K1>>&>());
    set_copyable(any<C<K1, H0<K1>, E0<K1>>&>());
    default_ctors(any<C<K1, H0<K1>, E0<K1>, A0<K1>>&>());
    using T = C<K1, HT, ET>;
    het(any<T&>(), any<const T&>(), any<const Q1&>());
    using S = C<std::string>;
    use(any<S&>().find(std::string_view("a")), any<const S&>().contains("a"), any<S&>().erase("a"), any<S&>().insert("a"), any<S&>().emplace("a"));
    S s{ "a", "b" };
    s = { "a" };
    C<std::pair<int, std::string>> p;
    p.insert({ 1, "a" });
    C<std::tuple<int, char, std::string>> t;
    C<int*> ip;
    C<std::unique_ptr<int>> up;
    up.insert(std::make_unique<int>(1));
    use(up.find(any<const std::unique_ptr<int>&>()));
    use(up.find(any<int*>()), up.contains(any<int*>()));
    enum class En { a };
    C<En> en;
    C<double> dd;
    C<bool> bb;
    C<char> cc;
    C<long long> ll;
    C<std::string_view> sv;
    C<std::shared_ptr<int>> sp;
    use(en.insert(En::a), ip.insert(nullptr), t.count({ 1, 'a', "" }), dd.insert(1.0), bb.insert(true), cc.insert('a'), ll.insert(1), sv.insert("a"), sp.find(any<int*>()));
}
void go() {
    all<gtl::flat_hash_set>();
    all<gtl::node_hash_set>();
    using N = gtl::node_hash_set<KP, H0<KP>, E0<KP>>;
    any<N&>().emplace(1);
    any<N&>().lazy_emplace(any<KP&>(), [](const N::constructor& c) { c(1); });
    reads(any<N&>(), any<KP&>());
    erases(any<N&>(), any<KP&>());
    massign(any<N&>());
}
// Hash customisation points
struct HV { int a; friend size_t hash_value(const HV& h) { return size_t(h.a); } bool operator==(const HV&) const = default; };
struct HS { int a; bool operator==(const HS&) const = default; };
namespace std { template<> struct hash<HS> { size_t operator()(const HS& h) const { return gtl::HashState().combine(0, h.a, h.a); } }; }
void go2() {
    gtl::flat_hash_set<HV> a;
    gtl::flat_hash_set<HS> b;
    gtl::flat_hash_set<std::pair<HV, int>> c;
    a.insert(HV{ 1 });
    b.insert(HS{ 1 });
    c.insert({ HV{ 1 }, 1 });
}
