#include <gtl/adv_utils.hpp>
#include <gtl/bit_vector.hpp>
#include <gtl/bits.hpp>
#include <gtl/intrusive.hpp>
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
#include <gtl/phmap_utils.hpp>
#include <gtl/soa.hpp>
#include <gtl/stopwatch.hpp>
#include <gtl/utils.hpp>
#include <gtl/vec_utils.hpp>
#include "min.h"
#include <sstream>
#include <map>

void bitv() {
    gtl::bit_vector& m = any<gtl::bit_vector&>();
    const gtl::bit_vector& c = any<const gtl::bit_vector&>();
    gtl::bit_vector a, b(10), d(10, true), e(c), f(std::move(m)), g({ 1, 2 });
    m = c;
    m = std::move(f);
    m = { 1, 2 };
    m.resize(1);
    m.resize(1, true);
    use(m.set(), m.reset(), m.flip(), m.set(1), m.reset(1), m.flip(1), m.set(1, true));
    use(c.test(1), c[1], c.any(), c.every(), c.none(), c.count(), c.size(), c.empty(), c.num_blocks(), c.block(0), c.storage(), c.find_first(), c.find_next(1));
    use(c == c, c != c, c.contains(c), c.disjoint(c), c.intersects(c), c | c, c & c, c ^ c, c - c, ~c, c << 1, c >> 1);
    use(m |= c, m &= c, m ^= c, m -= c, m.or_not(c), m <<= 1, m >>= 1);
    use(c.to_string(), c.to_string('a', 'b'), c.to_ullong(), c.to_ulong(), std::hash<gtl::bit_vector>()(c));
    m.swap(m);
    std::ostringstream os;
    os << c << m.view() << c.view(1, 3);
    std::string s = c;
    c.append_to_string(s);
    auto v = m.view(1, 9);
    auto cv = c.view();
    use(v.size(), v.empty(), v[1], v.any(), v.every(), v.none(), v.count(), v.find_first(), v.find_next(1), v == v, v.contains(v), v.disjoint(v), v.intersect(v));
    use(v.set(), v.reset(), v.flip(), v.set(1), v.reset(1), v.flip(1), v.set(1, true), v |= v, v &= v, v ^= v, v -= v, v.or_not(v), v <<= 1, v >>= 1);
    use(cv.count(), cv.any(), cv[1]);
    std::string vs = v;
    v.append_to_string(vs);
}
struct Base { virtual ~Base() = default; };
struct Obj : Base, gtl::intrusive_ref_counter<Obj, gtl::thread_safe_counter> {};
struct Der : Obj {};
struct ObjU : gtl::intrusive_ref_counter<ObjU, gtl::thread_unsafe_counter> {};
template<class O> void ptrs() {
    using P = gtl::intrusive_ptr<O>;
    P a, b(new O), c(new O, false), d(a), e(std::move(b));
    a = d;
    a = std::move(d);
    a = new O;
    a.reset();
    a.reset(new O);
    a.reset(new O, false);
    use(a.get(), *a, a.operator->(), !a, bool(a), a.detach());
    a.swap(c);
    using std::swap;
    swap(a, c);
    use(a == c, a != c, a < c, a == a.get(), a.get() == a, a != a.get(), a.get() != a, a == nullptr, nullptr == a, a != nullptr, nullptr != a, get_pointer(a));
    use(std::hash<P>()(a), hash_value(a));
    std::ostringstream os;
    os << a;
    O o, o2(o);
    o = o2;
    use(o.use_count());
    gtl::flat_hash_set<P> s;
    s.insert(a);
    std::map<P, int> m;
    m[a] = 1;
}
void conv() {
    using P = gtl::intrusive_ptr<Obj>;
    using D = gtl::intrusive_ptr<Der>;
    using C = gtl::intrusive_ptr<const Obj>;
    D d(new Der);
    P p(d), q(std::move(d));
    p = d;
    p = std::move(d);
    C c(p), c2(std::move(p));
    c = q;
    c = std::move(q);
    use(p == d, p != d, c == p);
    use(gtl::static_pointer_cast<Der>(p), gtl::dynamic_pointer_cast<Der>(p), gtl::const_pointer_cast<Obj>(c));
    use(gtl::static_pointer_cast<Der>(std::move(p)), gtl::dynamic_pointer_cast<Der>(std::move(p)), gtl::const_pointer_cast<Obj>(std::move(c)));
}
void scopes() {
    int x = 0;
    std::unique_ptr<int> up;
    auto l = [&] { ++x; };
    gtl::scoped_set_unset g1([&] { ++x; }, [&] { --x; });
    gtl::scoped_set_unset g2([&] { ++x; }, [&] { --x; }, false);
    gtl::scoped_guard g3([&, u = std::unique_ptr<int>()] { ++x; });
    gtl::scoped_guard g4([&] { ++x; }, true);
    gtl::scoped_set_value g5(x, 3);
    gtl::scoped_set_value g6(x, 3l, false);
    gtl::scoped_set_value g7(up, std::make_unique<int>(1));
    g1.dismiss();
    g3.dismiss();
    g5.dismiss();
    use(l, gtl::change(x, 1), gtl::replace(x, 1), gtl::replace(up, nullptr), gtl::change(up, nullptr));
    gtl::timestamp t, t2(1);
    t.touch();
    t.touch(t2);
    t.reset();
    use(t.is_set(), t.is_newer_than(t2), t.is_older_than(t2), t == t2, t < t2, t > t2, t | t2, t |= t2, t.get(), t.get_timestamp(), t.set_with_ts(x, 3));
    struct PT : gtl::provides_timestamp<PT> { gtl::timestamp get_timestamp() const { return {}; } };
    PT pt;
    use(pt.is_newer_than(t), pt.is_older_than(t), pt | t, pt | pt);
}
template<class MT> void caches() {
    using L = gtl::lru_cache_impl<K1, VD, 2, H0<K1>, E0<K1>, MT>;
    L l, l2(1000);
    l.insert(K1(1), VD());
    const VD v;
    l.insert(K1(1), v);
    use(l.exists(K1(1)), l.get(K1(1)), l.size());
    l.clear();
    l.reserve(10);
    l.set_cache_size(1000);
}
template<class F> void memos(F f) {
    gtl::memoize<F> a(f);
    gtl::memoize_lru<F> b(f), b2(f, 1000);
    gtl::mt_memoize<F> c(f);
    gtl::mt_memoize<F, false> d(f);
    gtl::mt_memoize<F, false, 2, std::shared_mutex> e(f);
    gtl::mt_memoize_lru<F> g(f), g2(std::move(f), 100);
    use(a(1, 2), b(1, 2), c(1, 2), d(1, 2), e(1, 2), g(1, 2));
    use(a.contains(1, 2), b.contains(1, 2), c.contains(1, 2), d.contains(1, 2), g.contains(1, 2), std::as_const(a).size(), std::as_const(b).size());
    a.clear(); b.clear(); c.clear(); d.clear(); g.clear();
    a.reserve(1); b.reserve(1);
    b.set_cache_size(10);
}
int fn2(int, int);
void soas() {
    using S = gtl::soa<int, std::string, VD>;
    S& m = any<S&>();
    const S& c = any<const S&>();
    S a, b(c);
    b = c;
    b = std::move(a);
    m.insert(1, "a", VD());
    m.insert(1, std::string("a"), VD());
    use(c.size(), c.empty(), c[0], m[0], c.view<0, 1>(0), m.view<1>(0), c.get_column<0>(), m.get_column<1>());
    m.clear();
    m.resize(1);
    m.reserve(1);
    m.sort_by_field<0>();
    m.sort_by_field<1>();
    m.sort_by_field<2>([](const VD& x, const VD& y) { return x.v < y.v; });
    std::ostringstream os;
    os << any<const gtl::soa<int, std::string>&>();
}
void misc() {
    std::vector<int> v{ 1, 2 };
    const std::vector<int> cv{ 1 };
    use(gtl::cat(v, v), gtl::cat(v, cv, std::vector<int>{ 1 }), gtl::slice(v), gtl::slice(cv, 1, 2), gtl::slice(std::vector<int>{ 1, 2 }, 0, -1, 2));
    use(gtl::map([](int x) { return x + 0.5; }, v), gtl::map([](int x) { return std::to_string(x); }, cv));
    use(gtl::binary_search<int>(gtl::middle<int>(), [](int i) { return i > 3; }, 0, 10));
    use(gtl::binary_search<double>(gtl::middle<double>(), [](double i) { return i > 3; }, 0.0, 10.0));
    gtl::stopwatch<> sw;
    gtl::stopwatch<std::micro> sw2(false);
    sw.start(); sw.snap();
    use(sw.since_start(), sw.since_snap(), sw.start_to_snap());
    gtl::start_snap ss(sw);
    gtl::basic_stopwatch bs("a");
    use(bs.get_time_us());
    use(gtl::HashState().combine(0, 1, 'a', std::string("b")), gtl::Hash<std::pair<int, std::string>>()({ 1, "a" }), gtl::Hash<std::tuple<int, char>>()({ 1, 'a' }));
    use(gtl::Hash<int>()(1), gtl::Hash<double>()(1.0), gtl::Hash<float>()(1.f), gtl::Hash<char>()('a'), gtl::Hash<bool>()(true), gtl::Hash<int*>()(nullptr), gtl::Hash<std::string>()("a"));
}
void go() {
    ptrs<Obj>();
    ptrs<ObjU>();
    caches<gtl::NullMutex>();
    caches<std::mutex>();
    caches<std::shared_mutex>();
    caches<MX>();
    gtl::lru_cache<int, int> l1(100);
    gtl::mt_lru_cache<std::string, std::string> l2(1000);
    l2.insert("a", "b");
    use(l1.get(1), l2.get("a"), l2.exists("a"));
    memos([](int a, int b) { return a + b; });
    memos(&fn2);
    memos([](const int a, int b) { return std::to_string(a + b); });
}
