"""Witness units for lock guards (C06)."""

GPRE = r"""#include <gtl/phmap.hpp>
extern "C" {
int  w_choice__();
void w_hold__(void*) noexcept;
void w_gst__(int op, int ret, void* am, bool ao, bool as, void* bm, bool bo, bool bs, void* cm, bool co, bool cs) noexcept;
}
struct GM {
    void lock() { w_lock__M(this); }
    void unlock() noexcept { w_unlock__M(this); }
    bool try_lock() { return w_trylock__M(this); }
    void lock_shared() { w_lockS__M(this); }
    void unlock_shared() noexcept { w_unlockS__M(this); }
    bool try_lock_shared() { return w_trylockS__M(this); }
    char pad[8];
};
using B = gtl::LockableBaseImpl<GM>;
template<class G> bool shd(const G& g) { if constexpr (requires { g.owns_shared_lock(); }) return g.owns_shared_lock(); else return false; }
#define AB a.mutex(), a.owns_lock(), shd(a), b.mutex(), b.owns_lock(), shd(b)
#define ST(op, ret) w_gst__(op, ret, AB, nullptr, false, false)
#define ST3(op) w_gst__(op, 0, AB, c.mutex(), c.owns_lock(), shd(c))
#define COMMON \
        case 0: if (a.mutex() && !shd(a)) { try { a.lock(); ST(1, 0); } catch (...) { ST(9, 0); } } break; \
        case 1: a.unlock(); ST(2, 0); break; \
        case 2: a = std::move(b); ST(4, 0); break; \
        case 3: b = std::move(a); ST(5, 0); break; \
        case 4: a.swap(b); ST(6, 0); break; \
        case 5: { { G c(std::move(a)); ST3(7); } ST(8, 0); } break; \
        case 6: { { G c(std::move(a)); ST3(7); c.swap(a); ST3(12); } ST(9, 0); } break; \
        case 7: a = std::move(*w_same(&a)); ST(9, 0); break; \
        case 8: { bool r = a.owns_lock(); ST(13, r); } break;
template<class G> G* w_same(G* g) { return g; }
"""
TRY = """        case 20: if (a.mutex()) { try { bool r = a.try_lock(); ST(3, r); } catch (...) { ST(9, 0); } } break;
        case 21: { bool r = a.switch_to_unique(); ST(11, r); } break;
"""
RW = """        case 20: if (a.mutex() && !a.owns_lock()) { try { a.lock_shared(); ST(20, 0); } catch (...) { ST(9, 0); } } break;
        case 21: a.unlock_shared(); ST(21, 0); break;
        case 22: if (a.owns_shared_lock()) { try { bool r = a.switch_to_unique(); ST(22, r); } catch (...) { ST(23, 0); } } break;
"""


def guard_tu(TU, absl=False):
    pre = GPRE
    if absl:
        a, b = pre.index("struct GM {"), pre.index("using B =")
        pre = '#include "absl_stub.h"\n' + pre[:a] + "using GM = gtl::AbslMutex;\n" + pre[b:]
    t = TU("gd_absl" if absl else "gd", pre, groups={"guards"})
    for g, k in (("WriteLock", "W"), ("ReadLock", "R"), ("ReadWriteLock", "RW")):
        L = "w_hold__(&m1);"
        ctors = [("default", "G a; ", 30), ("lock", "G a(m1); ", 31), ("defer", "G a(m1, gtl::defer_lock_t()); ", 33)]
        if k != "RW":
            ctors += [("adopt", L + " G a(m1, gtl::adopt_lock_t()); ", 32), ("try", "G a(m1, gtl::try_to_lock_t()); ", 34)]
        for n, c, code in ctors:
            body = ("using G = B::%s; { %sG b(m2, gtl::defer_lock_t()); ST(%d, 0); while (w_pick__()) { switch (w_choice__()) { COMMON\n%s } } } w_gst__(40, 0, nullptr, false, false, nullptr, false, false, nullptr, false, false);"
                    % (g, c, code, RW if k == "RW" else TRY))
            t.op("%s_%s" % (g, n), "GM& m1, GM& m2", body, ret="void", guard=k)
    for g, k in (("WriteLocks", "W"), ("ReadLocks", "R")):
        L = "w_hold__(&m1); w_hold__(&m2);"
        for n, c in (("lock", "B::%s g(m1, m2);" % g), ("adopt", L + " B::%s g(gtl::adopt_lock_t(), m1, m2);" % g)):
            t.op("%s_%s" % (g, n), "GM& m1, GM& m2", "{ %s w_gst__(50, 0, &m1, true, false, &m2, true, false, nullptr, false, false); } w_gst__(40, 0, nullptr, false, false, nullptr, false, false, nullptr, false, false);" % c, ret="void", guard=k)
    return t


def rdump_tu(TU, kind, alloc="WA"):
    mp = kind == "flat_map"
    val = "std::pair<const TK, int>" if mp else "TK"
    al = {"WA": f"WA<{val}>", "STD": f"std::allocator<{val}>"}[alloc]
    cls = "flat_hash_map" if mp else "flat_hash_set"
    targs = f"TK, int, H, E, {al}" if mp else f"TK, H, E, {al}"
    pre = f"""#include <iostream>
#include <gtl/phmap.hpp>
#include <gtl/phmap_dump.hpp>
using M = gtl::{cls}<{targs}>;
extern "C" {{ extern const size_t w_sizeof_M; const size_t w_sizeof_M = sizeof(M); extern const size_t w_sizeof_slot; const size_t w_sizeof_slot = sizeof(M::value_type); }}
"""
    t = TU(f"rdump_{kind}_{alloc.lower()}", pre, groups={"rdump", kind})
    t.op("size", "const M& m", "return m.size();", ret="size_t", aux=1)
    t.op("capacity", "const M& m", "return m.capacity();", ret="size_t", aux=1)
    t.op("default", "void* p", "new (p) M();", ret="void", aux=1)
    t.op("dump", "const M& m, SaveAr& ar", "return m.phmap_dump(ar);", cont=0, dumpop=1, shared=1)
    t.op("load", "M& m, LoadAr& ar", "return m.phmap_load(ar);", cont=0, loadop=1)
    return t


MPRE = r"""#include <mutex>
#include <shared_mutex>
#include <optional>
#include <gtl/phmap.hpp>
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
namespace std { template<> struct hash<K> { size_t operator()(const K& k) const { return w_hash__R(&k); } }; }
extern "C" {
void w_fn__WR(void*, const void*);
void w_fn2__WRR(void*, const void*, const void*);
void w_result__R(const void*) noexcept;   // the optional returned holds this value
void w_noresult__() noexcept;
}
// the user's function: one event that fills the result
struct RV {
    int v;
    RV() { w_vinit__W(this); }
    RV(const K& a, int) { w_fn__WR(this, &a); }
    RV(const K& a, const K& b) { w_fn2__WRR(this, &a, &b); }
    RV(const RV& o) { w_vcopy__WR(this, &o); }
    RV(RV&& o) noexcept { w_vmove__WW(this, &o); }
    RV& operator=(const RV& o) { w_vcopyassign__WR(this, &o); return *this; }
    RV& operator=(RV&& o) noexcept { w_vmoveassign__WW(this, &o); return *this; }
    ~RV() { w_vdtor__W(this); }
};
struct F1 { RV operator()(K a) const { return RV(a, 0); } };
struct F2 { RV operator()(K a, K b) const { return RV(a, b); } };
"""


def memo_tu(TU, name, cls, args=1, mutex=True, lru=False):
    pre = MPRE
    pre += "using M = %s;\n" % cls
    pre += 'extern "C" { extern const size_t w_sizeof_M; const size_t w_sizeof_M = sizeof(M); extern const size_t w_sizeof_map; const size_t w_sizeof_map = sizeof(M::map_type); }\n'
    g = {"memo"} | ({"lru"} if lru else set()) | ({"mlock"} if mutex else set())
    t = TU(name, pre, groups=g, n=4)
    A, a = ("const K& k", "k") if args == 1 else ("const K& k, const K& k2", "k, k2")
    kt = dict(cont=0, nargs=args)
    if lru:
        kt["lru"] = 1
    if name.startswith("memo_rec"):
        kt["nolockfn"] = "w_fn__WR" if args == 1 else "w_fn2__WRR"
    t.op("call", f"M& m, {A}", f"return m({a});", ret="RV", memocall=1, cta=1, **{**kt, "cont": 1})
    t.op("contains", f"M& m, {A}", f"auto r = m.contains({a}); if (r) w_result__R(&*r); else w_noresult__(); return 0;", ret="int", memoq=1, **kt)
    t.op("clear", "M& m", "m.clear();", ret="void", memoclear=1, whole=1, **kt)
    t.op("size", "const M& m", "return m.size();", ret="size_t", memoq=2, no_lock=1, **kt)
    return t


def lru_tu(TU, name, mutex="WMutex", n=2):
    pre = MPRE
    pre += "using M = gtl::lru_cache_impl<K, RV, %d, H, E, %s>;\n" % (n, mutex)
    pre += 'extern "C" { extern const size_t w_sizeof_M; const size_t w_sizeof_M = sizeof(M); extern const size_t w_sizeof_map; const size_t w_sizeof_map = sizeof(M::map_type); }\n'
    t = TU(name, pre, groups={"lru"} | (set() if mutex == "gtl::NullMutex" else {"mlock"}), n=2 ** n)
    t.op("insert", "M& m, const K& k, const RV& v", "m.insert(k, v);", ret="void", cont=0, lruins=1, lru=1, cta=1)
    t.op("insert_rv", "M& m, const K& k, RV& v", "m.insert(k, std::move(v));", ret="void", cont=0, lruins=1, lru=1, cta=1)
    t.op("get", "M& m, const K& k", "auto r = m.get(k); if (r) w_result__R(&*r); else w_noresult__(); return 0;", ret="int", cont=0, lruget=1, lru=1, cta=1)
    t.op("exists", "M& m, const K& k", "return m.exists(k);", cont=0, lruq=1, lru=1)
    t.op("clear", "M& m", "m.clear();", ret="void", cont=0, memoclear=1, whole=1, lru=1)
    t.op("size", "const M& m", "return m.size();", ret="size_t", cont=0, lruq=2, lru=1, no_lock=1)
    return t


def memo_tus(TU):
    r = [memo_tu(TU, "memo_rec", "gtl::mt_memoize<F1, true, 2, WMutex>"),
         memo_tu(TU, "memo_nrec", "gtl::mt_memoize<F1, false, 2, WMutex>"),
         memo_tu(TU, "memo_nrec2", "gtl::mt_memoize<F2, false, 2, WMutex>", args=2),
         memo_tu(TU, "memo_rec2", "gtl::mt_memoize<F2, true, 2, WMutex>", args=2),
         memo_tu(TU, "memo_null", "gtl::memoize<F1, 2>", mutex=False),
         memo_tu(TU, "memo_lru", "gtl::mt_memoize_lru<F1, 2, WMutex>", lru=True),
         memo_tu(TU, "memo_lrunull", "gtl::memoize_lru<F1, 2>", mutex=False, lru=True),
         lru_tu(TU, "lru_w"), lru_tu(TU, "lru_null", "gtl::NullMutex", 0),
         lru_tu(TU, "lru_sm", "std::shared_mutex"), memo_tu(TU, "memo_lrusm", "gtl::mt_memoize_lru<F1, 2, std::shared_mutex>", lru=True)]
    return r


COLS = r"""#include <compare>
#include <cstddef>
#include <type_traits>
#include <initializer_list>
#include <iterator>
#include <vector>
extern "C" {
size_t w_colsize__R(const void*, int) noexcept;
size_t w_colcap__R(const void*, int) noexcept;
void*  w_colat__R_(const void*, size_t, int) noexcept;
void w_colpush__WR(void*, const void*, int);
void w_colmove__WW(void*, void*, int);
void w_colemplace__W(void*, int);
void w_colclear__W(void*, int) noexcept;
void w_colpop__W(void*, int) noexcept;
void w_colresize__W_(void*, size_t, int);
void w_colresizev__W_R(void*, size_t, const void*, int);
void w_colreserve__W_(void*, size_t, int);
void w_colshrink__W(void*, int);
void w_colerase__W__(void*, size_t, size_t, int) noexcept;
void w_colinsert__W_R(void*, size_t, const void*, int);
void w_colassign__W_R(void*, size_t, const void*, int);
void w_colswap__WW(void*, void*, int) noexcept;
void w_colcopy__WR(void*, const void*, int);
void w_cinit__W(void*, int);
void w_ccopy__WR(void*, const void*, int);
void w_cmove__WW(void*, void*, int) noexcept;
void w_ccopyassign__WR(void*, const void*, int);
void w_cmoveassign__WW(void*, void*, int) noexcept;
void w_cdtor__W(void*, int) noexcept;
bool w_cless__RR(const void*, const void*, int);
}
template<int I> struct Col {
    int v;
    Col() { w_cinit__W(this, I); }
    Col(const Col& o) { w_ccopy__WR(this, &o, I); }
    Col(Col&& o) noexcept { w_cmove__WW(this, &o, I); }
    Col& operator=(const Col& o) { w_ccopyassign__WR(this, &o, I); return *this; }
    Col& operator=(Col&& o) noexcept { w_cmoveassign__WW(this, &o, I); return *this; }
    ~Col() { w_cdtor__W(this, I); }
    friend bool operator<(const Col& a, const Col& b) { return w_cless__RR(&a, &b, I); }
    template<class O> friend O& operator<<(O& o, const Col&) { return o; }
};
// a position in a column, kept as an index
template<class Vec, class T> struct ColIt {
    using value_type = std::remove_const_t<T>; using difference_type = ptrdiff_t; using reference = T&; using pointer = T*; using iterator_category = std::random_access_iterator_tag;
    Vec* c = nullptr; ptrdiff_t i = 0;
    T& operator*() const { return (*c)[i]; }
    T* operator->() const { return &(*c)[i]; }
    T& operator[](ptrdiff_t n) const { return (*c)[i + n]; }
    ColIt& operator++() { ++i; return *this; }
    ColIt& operator--() { --i; return *this; }
    ColIt operator++(int) { return { c, i++ }; }
    ColIt operator--(int) { return { c, i-- }; }
    ColIt& operator+=(ptrdiff_t n) { i += n; return *this; }
    ColIt& operator-=(ptrdiff_t n) { i -= n; return *this; }
    friend ColIt operator+(ColIt a, ptrdiff_t n) { return { a.c, a.i + n }; }
    friend ColIt operator+(ptrdiff_t n, ColIt a) { return { a.c, a.i + n }; }
    friend ColIt operator-(ColIt a, ptrdiff_t n) { return { a.c, a.i - n }; }
    friend ptrdiff_t operator-(ColIt a, ColIt b) { return a.i - b.i; }
    friend bool operator==(ColIt a, ColIt b) { return a.i == b.i; }
    friend auto operator<=>(ColIt a, ColIt b) { return a.i <=> b.i; }
    operator ColIt<const Vec, const T>() const { return { c, i }; }
};
// a column: every operation is one event on it
namespace std {
template<int I> class vector<Col<I>> {
    size_t pad_[3];
public:
    using value_type = Col<I>; using size_type = size_t; using difference_type = ptrdiff_t; using reference = value_type&; using const_reference = const value_type&;
    using pointer = value_type*; using const_pointer = const value_type*; using iterator = ColIt<vector, value_type>; using const_iterator = ColIt<const vector, const value_type>; using allocator_type = std::allocator<value_type>;
    vector() = default;
    vector(const vector& o) { w_colcopy__WR(this, &o, I); }
    vector& operator=(const vector& o) { w_colcopy__WR(this, &o, I); return *this; }
    ~vector() {}
    size_t size() const { return w_colsize__R(this, I); }
    size_t capacity() const { return w_colcap__R(this, I); }
    bool empty() const { return size() == 0; }
    value_type&       operator[](size_t i) { return *(value_type*)w_colat__R_(this, i, I); }
    const value_type& operator[](size_t i) const { return *(value_type*)w_colat__R_(this, i, I); }
    value_type&       at(size_t i) { return (*this)[i]; }
    const value_type& at(size_t i) const { return (*this)[i]; }
    value_type& front() { return (*this)[0]; }
    value_type& back() { return (*this)[size() - 1]; }
    const value_type& front() const { return (*this)[0]; }
    const value_type& back() const { return (*this)[size() - 1]; }
    value_type* data() { return &(*this)[0]; }
    const value_type* data() const { return &(*this)[0]; }
    iterator begin() { return { this, 0 }; }
    iterator end() { return { this, (ptrdiff_t)size() }; }
    const_iterator begin() const { return { this, 0 }; }
    const_iterator end() const { return { this, (ptrdiff_t)size() }; }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    void push_back(const value_type& v) { w_colpush__WR(this, &v, I); }
    void push_back(value_type&& v) { w_colmove__WW(this, &v, I); }
    template<class... A> value_type& emplace_back(A&&... a) { if constexpr (sizeof...(A) == 1) w_colpush__WR(this, (const void*)(&a, ...), I); else w_colemplace__W(this, I); return back(); }
    void clear() noexcept { w_colclear__W(this, I); }
    void pop_back() { w_colpop__W(this, I); }
    void resize(size_t n) { w_colresize__W_(this, n, I); }
    void resize(size_t n, const value_type& v) { w_colresizev__W_R(this, n, &v, I); }
    void reserve(size_t n) { w_colreserve__W_(this, n, I); }
    void shrink_to_fit() { w_colshrink__W(this, I); }
    iterator erase(const_iterator p) { w_colerase__W__(this, p.i, 1, I); return begin(); }
    iterator erase(const_iterator p, const_iterator q) { w_colerase__W__(this, p.i, q.i - p.i, I); return begin(); }
    iterator insert(const_iterator p, const value_type& v) { w_colinsert__W_R(this, p.i, &v, I); return begin(); }
    void assign(size_t n, const value_type& v) { w_colassign__W_R(this, n, &v, I); }
    void swap(vector& o) { w_colswap__WW(this, &o, I); }
    friend void swap(vector& a, vector& b) { a.swap(b); }
};
}
using C0 = Col<0>; using C1 = Col<1>; using C2 = Col<2>;
#include <gtl/soa.hpp>
using M = gtl::soa<C0, C1, C2>;
extern "C" { extern const size_t w_sizeof_M; const size_t w_sizeof_M = sizeof(M); }
"""


def soacol_tu(TU):
    t = TU("soacol", COLS, groups={"soacol"})
    A = dict(cont=0, soastruct=1)
    t.op("insert", "M& m, const C0& a, const C1& b, const C2& c", "m.insert(a, b, c);", ret="void", **A)
    t.op("insert_rv", "M& m, C0& a, C1& b, C2& c", "m.insert(std::move(a), std::move(b), std::move(c));", ret="void", **A)
    t.op("resize", "M& m, size_t n", "m.resize(n);", ret="void", **A)
    t.op("reserve", "M& m, size_t n", "m.reserve(n);", ret="void", **A)
    t.op("clear", "M& m", "m.clear();", ret="void", **A)
    t.op("size", "const M& m", "return m.size();", ret="size_t", cont=0, soaread=1)
    t.op("empty", "const M& m", "return m.empty();", cont=0, soaread=1)
    R = dict(cont=0, soarow="012")
    K = "w_cbr__R(&std::get<%d>(r)); "
    t.op("row", "M& m, size_t i", "auto r = m[i]; " + K % 0 + K % 1 + K % 2, ret="void", **R)
    t.op("row_c", "const M& m, size_t i", "auto r = m[i]; " + K % 0 + K % 1 + K % 2, ret="void", **R)
    t.op("view", "M& m, size_t i", "auto r = m.view<2, 0>(i); " + K % 0 + K % 1, ret="void", cont=0, soarow="20")
    t.op("view_c", "const M& m, size_t i", "auto r = m.view<1, 2>(i); " + K % 0 + K % 1, ret="void", cont=0, soarow="12")
    t.op("column", "const M& m", "return &m.get_column<1>();", ret="const void*", cont=0, soaread=1)
    t.op("column_m", "M& m", "return &m.get_column<2>();", ret="const void*", cont=0, soaread=1)
    S = dict(cont=0, soasortc=1)
    t.op("sort", "M& m", "m.sort_by_field<0>([](const C0& a, const C0& b) { return a < b; });", ret="void", **S)
    t.op("sort1", "M& m", "m.sort_by_field<1>();", ret="void", **S)
    t.op("sort2", "M& m", "m.sort_by_field<2>([](const C2& a, const C2& b) { return a < b; });", ret="void", **S)
    return t
