"""Witness units for the containers and utilities other than the hash tables."""


def btree_tu(kind, TU, alloc="WA"):
    mp, multi = kind.endswith("map"), "multi" in kind
    val = "std::pair<const K, V>" if mp else "K"
    al = {"WA": f"WA<{val}>", "STD": f"std::allocator<{val}>"}[alloc]
    targs = f"K, V, L, {al}" if mp else f"K, L, {al}"
    pre = f"""#include <gtl/btree.hpp>
using M = gtl::btree_{kind}<{targs}>;
using VT = M::value_type;
extern "C" {{ extern const size_t w_sizeof_M; const size_t w_sizeof_M = sizeof(M);
              extern const size_t w_sizeof_VT; const size_t w_sizeof_VT = sizeof(VT); }}
"""
    t = TU(f"b_{kind}_{alloc.lower()}", pre, groups={"btree", "btree_" + alloc, "b_" + kind})
    ro = dict(cont=0, shared=1)
    t.op("size", "const M& m", "return m.size();", ret="size_t", **ro, query="size")
    t.op("empty", "const M& m", "return m.empty();", **ro)
    t.op("iterate", "const M& m", "for (auto& v : m) w_cbr__R(&v);", ret="void", **ro)
    t.op("riterate", "const M& m", "for (auto i = m.rbegin(); i != m.rend(); ++i) w_cbr__R(&*i);", ret="void", **ro)
    t.op("eqop", "const M& a, const M& b", "return a == b;", cont="0,1", shared=1)
    t.op("ltop", "const M& a, const M& b", "return a < b;" if not mp else "return a == b;", cont="0,1", shared=1)
    t.op("copy_ctor", "const M& a, void* p", "new (p) M(a);", ret="void", cont=0, shared=1, out=1, copyop=1)
    for q in ("find", "lower_bound", "upper_bound"):
        t.op(q + "_c", "const M& m, const K& k", f"return m.{q}(k) != m.end();", **ro)
    t.op("contains", "const M& m, const K& k", "return m.contains(k);", **ro)
    t.op("count", "const M& m, const K& k", "return m.count(k);", ret="size_t", **ro)
    t.op("equal_range", "const M& m, const K& k", "auto r = m.equal_range(k); return r.first != r.second;", **ro)
    t.op("find", "M& m, const K& k", "return &*m.find(k);", ret="const void*", cont=0, shared=1)
    t.op("erase", "M& m, const K& k", "return m.erase(k);", ret="size_t", cont=0, er=1, reloc=1)
    t.op("erase_it", "M& m, M::iterator& it", "m.erase(it);", ret="void", cont=0, er=1, it=1, reloc=1)
    t.op("erase_range", "M& m, M::iterator& a, M::iterator& b", "m.erase(a, b);", ret="void", cont=0, er=1, it="1,2", multi=1, reloc=1)
    t.op("extract", "M& m, M::iterator& it, void* p", "new (p) M::node_type(m.extract(it));", ret="void", cont=0, er=1, it=1, ext=1, out=2)
    t.op("clear", "M& m", "m.clear();", ret="void", cont=0, er=1, whole=1)
    t.op("dtor", "M& m", "m.~M();", ret="void", cont=0, er=1, whole=1, dtor=1)
    sec = "" if multi else ".second"
    rt = dict(ret="void") if multi else {}
    wr = (lambda e: e + ";") if multi else (lambda e: "return " + e + ".second;")
    ins = dict(cont=0, bins=1, **({} if multi else dict(uniq=1, ret_="inserted")))
    insh = dict(cont=0, bins=1, **({} if multi else dict(uniq=1, ret_="none")))
    t.op("insert_c", "M& m, const VT& v", wr("m.insert(v)"), args=1, **rt, **ins)
    t.op("insert_m", "M& m, VT&& v", wr("m.insert(std::move(v))"), args=1, **rt, **ins)
    t.op("insert_hint", "M& m, const VT& v, M::const_iterator& it", "m.insert(it, v);", ret="void", args=1, **insh)
    t.op("insert_hint_m", "M& m, VT&& v, M::const_iterator& it", "m.insert(it, std::move(v));", ret="void", args=1, **insh)
    t.op("insert_range", "M& m, const VT* a, const VT* b", "m.insert(a, b);", ret="void", cont=0, insmulti=1, args=1)
    if not multi:
        t.op("insert_node_hint", "M& m, M::node_type& n, M::const_iterator& it", "m.insert(it, std::move(n));", ret="void", args=1, nodeins=1, **insh)
    if mp:
        t.op("emplace_kv", "M& m, const K& k, const V& v", wr("m.emplace(k, v)"), args="1,2", tmp=1, **rt, **ins)
        if not multi:
            t.op("try_emplace_c", "M& m, const K& k, V& v", wr("m.try_emplace(k, std::move(v))"), args="1,2", **ins)
            t.op("try_emplace_m", "M& m, K& k, V& v", wr("m.try_emplace(std::move(k), std::move(v))"), args="1,2", **ins)
            t.op("try_emplace_hint", "M& m, K& k, V& v, M::const_iterator& it", "m.try_emplace(it, std::move(k), std::move(v));", ret="void", args="1,2", **insh)
            t.op("subscript_c", "M& m, const K& k", "return &m[k];", ret="void*", args="1", **insh)
            t.op("subscript_m", "M& m, K& k", "return &m[std::move(k)];", ret="void*", args="1", **insh)
            t.op("at_c", "const M& m, const K& k", "return &m.at(k);", ret="const void*", **ro)
    else:
        t.op("emplace_v", "M& m, const VT& v", wr("m.emplace(v)"), args=1, tmp=1, **rt, **ins)
    t.op("swap", "M& a, M& b", "a.swap(b);", ret="void", cont="0,1", swapop=1)
    t.op("swap_f", "M& a, M& b", "using std::swap; swap(a, b);", ret="void", cont="0,1", swapop=2)
    t.op("move_ctor", "M& a, void* p", "new (p) M(std::move(a));", ret="void", cont=0, out=1, movector=1)
    t.op("default_ctor", "void* p", "new (p) M();", ret="void", out=0, defctor=1)
    t.op("move_assign", "M& a, M& b", "a = std::move(b);", ret="void", cont="0,1", moveassign=1)
    t.op("copy_assign", "M& a, const M& b", "a = b;", ret="void", cont="0,1", copyassign=1)
    t.op("merge", "M& a, M& b", "a.merge(b);", ret="void", cont="0,1", mergeop=1)
    return t


def vector_tu(alloc, TU):
    al = {"WA": "WA<V>", "STD": "std::allocator<V>", "TRIV": "std::allocator<T3>", "WAX": "WA<VX>", "STDX": "std::allocator<VX>"}[alloc]
    el = "VX" if alloc[-1] == "X" else "V"
    pre = "#include <gtl/vector.hpp>\n"
    if alloc == "TRIV":
        el = "T3"
        pre += "struct T3 { uint64_t a, b, c; };\n"
    pre += f"""using M = gtl::vector<{el}, {al}>;
inline bool operator<(const {el}& a, const {el}& b) {{ return w_less__RR(&a, &b); }}
extern "C" {{ extern const size_t w_sizeof_M; const size_t w_sizeof_M = sizeof(M);
              extern const size_t w_sizeof_VT; const size_t w_sizeof_VT = sizeof(V); }}
"""
    if alloc == "TRIV":
        t = TU("v_triv", pre.replace("sizeof(V)", "sizeof(T3)"), groups={"vectriv"})
        self_ = dict(cont=0, selfarg=1, args=1)
        t.op("push_back_c", "M& m, const T3& v", "m.push_back(v);", ret="void", **self_)
        t.op("push_back_m", "M& m, T3&& v", "m.push_back(std::move(v));", ret="void", **self_)
        t.op("emplace_back_c", "M& m, const T3& v", "m.emplace_back(v);", ret="void", **self_)
        t.op("resize_v", "M& m, const T3& v, size_t n", "m.resize(n, v);", ret="void", **self_)
        t.op("insert_c", "M& m, const T3& v, M::const_iterator& it", "m.insert(it, v);", ret="void", **self_)
        t.op("insert_m", "M& m, T3&& v, M::const_iterator& it", "m.insert(it, std::move(v));", ret="void", **self_)
        t.op("insert_n", "M& m, const T3& v, M::const_iterator& it, size_t n", "m.insert(it, n, v);", ret="void", **self_)
        t.op("emplace_c", "M& m, const T3& v, M::const_iterator& it", "m.emplace(it, v);", ret="void", **self_)
        return t
    t = TU(f"v_{alloc.lower()}", pre, groups={"vecthrow"} if el == "VX" else {"vector", "vector_" + alloc})
    if el == "VX":
        top = t.op
        t.op = lambda n, a, b, **k: top(n, a.replace("V&", "VX&").replace("V*", "VX*"), b, **k) if n not in ("eqop", "neop", "ltop", "iterate", "riterate") else None
    ro = dict(cont=0, shared=1)
    t.op("size", "const M& m", "return m.size();", ret="size_t", **ro, query="size")
    t.op("capacity", "const M& m", "return m.capacity();", ret="size_t", **ro, query="capacity")
    t.op("empty", "const M& m", "return m.empty();", **ro)
    t.op("iterate", "const M& m", "for (auto& v : m) w_cbr__R(&v);", ret="void", **ro)
    t.op("riterate", "const M& m", "for (auto i = m.rbegin(); i != m.rend(); ++i) w_cbr__R(&*i);", ret="void", **ro)
    t.op("index", "const M& m, size_t i", "return &m[i];", ret="const void*", **ro)
    t.op("at", "const M& m, size_t i", "return &m.at(i);", ret="const void*", **ro)
    t.op("front", "const M& m", "return &m.front();", ret="const void*", **ro)
    t.op("back", "const M& m", "return &m.back();", ret="const void*", **ro)
    t.op("data", "const M& m", "return m.data();", ret="const void*", **ro)
    t.op("eqop", "const M& a, const M& b", "return a == b;", cont="0,1", shared=1)
    t.op("neop", "const M& a, const M& b", "return a != b;", cont="0,1", shared=1)
    t.op("ltop", "const M& a, const M& b", "return a < b;", cont="0,1", shared=1)
    t.op("copy_ctor", "const M& a, void* p", "new (p) M(a);", ret="void", cont=0, shared=1, out=1, copyop=1)
    self_ = dict(cont=0, selfarg=1, grow=1)
    t.op("push_back_c", "M& m, const V& v", "m.push_back(v);", ret="void", **self_, args=1)
    t.op("push_back_m", "M& m, V&& v", "m.push_back(std::move(v));", ret="void", **self_, args=1)
    t.op("emplace_back_c", "M& m, const V& v", "m.emplace_back(v);", ret="void", **self_, args=1)
    t.op("emplace_back_0", "M& m", "m.emplace_back();", ret="void", cont=0, grow=1)
    t.op("resize", "M& m, size_t n", "m.resize(n);", ret="void", cont=0, grow=1, multi=1)
    t.op("resize_v", "M& m, size_t n, const V& v", "m.resize(n, v);", ret="void", cont=0, selfarg=2, grow=1, args=2, multi=1)
    t.op("insert_c", "M& m, const V& v, M::const_iterator& it", "m.insert(it, v);", ret="void", **self_, args=1)
    t.op("insert_m", "M& m, V&& v, M::const_iterator& it", "m.insert(it, std::move(v));", ret="void", **self_, args=1)
    t.op("insert_n", "M& m, const V& v, M::const_iterator& it, size_t n", "m.insert(it, n, v);", ret="void", **self_, args=1, multi=1)
    t.op("emplace_c", "M& m, const V& v, M::const_iterator& it", "m.emplace(it, v);", ret="void", **self_, args=1)
    t.op("insert_range", "M& m, const V* a, const V* b, M::const_iterator& it", "m.insert(it, a, b);", ret="void", cont=0, grow=1, args=1, multi=1)
    t.op("assign_n", "M& m, size_t n, const V& v", "m.assign(n, v);", ret="void", cont=0, args=2, selfarg=2, noself=1, multi=1)
    t.op("assign_range", "M& m, const V* a, const V* b", "m.assign(a, b);", ret="void", cont=0, args=1, multi=1)
    t.op("reserve", "M& m, size_t n", "m.reserve(n);", ret="void", cont=0, grow=1)
    t.op("shrink", "M& m", "m.shrink_to_fit();", ret="void", cont=0, grow=1)
    t.op("erase", "M& m, M::const_iterator& it", "m.erase(it);", ret="void", cont=0, er=1)
    t.op("erase_range", "M& m, M::const_iterator& a, M::const_iterator& b", "m.erase(a, b);", ret="void", cont=0, er=1, multi=1)
    t.op("pop_back", "M& m", "m.pop_back();", ret="void", cont=0, er=1)
    t.op("clear", "M& m", "m.clear();", ret="void", cont=0, er=1)
    t.op("dtor", "M& m", "m.~M();", ret="void", cont=0, er=1, dtor=1)
    t.op("ctor_n", "void* p, size_t n", "new (p) M(n);", ret="void", out=0, ctorop=1)
    t.op("ctor_nv", "void* p, size_t n, const V& v", "new (p) M(n, v);", ret="void", out=0, ctorop=1)
    t.op("ctor_range", "void* p, const V* a, const V* b", "new (p) M(a, b);", ret="void", out=0, ctorop=1)
    t.op("swap", "M& a, M& b", "a.swap(b);", ret="void", cont="0,1", swapop=1)
    t.op("swap_f", "M& a, M& b", "using std::swap; swap(a, b);", ret="void", cont="0,1", swapop=2)
    t.op("move_ctor", "M& a, void* p", "new (p) M(std::move(a));", ret="void", cont=0, out=1, movector=1)
    t.op("default_ctor", "void* p", "new (p) M();", ret="void", out=0, defctor=1)
    t.op("move_assign", "M& a, M& b", "a = std::move(b);", ret="void", cont="0,1", moveassign=1)
    t.op("copy_assign", "M& a, const M& b", "a = b;", ret="void", cont="0,1", copyassign=1)
    return t


def bitvec_tu(TU):
    pre = """#include <cstring>
#include <vector>
#include <string>
#include <gtl/bit_vector.hpp>
using M = gtl::bit_vector;
using BV = gtl::bit_view;
extern "C" { extern const size_t w_sizeof_M; const size_t w_sizeof_M = sizeof(M); }
"""
    t = TU("bv", pre, groups={"bitvec"})
    ro = dict(cont=0, shared=1)
    for n, e, rt in (("any", "any()", "bool"), ("every", "every()", "bool"), ("none", "none()", "bool"), ("count", "count()", "size_t"),
                     ("size", "size()", "size_t"), ("find_first", "find_first()", "size_t"), ("to_ullong", "to_ullong()", "size_t")):
        t.op(n, "const M& m", f"return m.{e};", ret=rt, **ro)
    t.op("test", "const M& m, size_t i", "return m.test(i);", **ro)
    t.op("find_next", "const M& m, size_t i", "return m.find_next(i);", ret="size_t", **ro)
    t.op("hash", "const M& m", "return std::hash<M>()(m);", ret="size_t", **ro)
    for n, e in (("eqop", "a == b"), ("contains", "a.contains(b)"), ("disjoint", "a.disjoint(b)"), ("intersects", "a.intersects(b)")):
        t.op(n, "const M& a, const M& b", f"return {e};", cont="0,1", shared=1)
    for n, e in (("or", "a | b"), ("and", "a & b"), ("xor", "a ^ b"), ("minus", "a - b"), ("not", "~a"), ("copy_ctor", "a")):
        t.op("r_" + n, "const M& a, const M& b, void* p", f"new (p) M({e});", ret="void", cont="0,1", shared=1, out=2)
    t.op("r_shl", "const M& a, size_t c, void* p", "new (p) M(a << c);", ret="void", cont=0, shared=1, out=2)
    t.op("r_shr", "const M& a, size_t c, void* p", "new (p) M(a >> c);", ret="void", cont=0, shared=1, out=2)
    t.op("v_any", "const M& m, size_t a, size_t b", "return m.view(a, b).any();", **ro)
    t.op("v_every", "const M& m, size_t a, size_t b", "return m.view(a, b).every();", **ro)
    t.op("v_count", "const M& m, size_t a, size_t b", "return m.view(a, b).count();", ret="size_t", **ro)
    t.op("v_find_first", "const M& m, size_t a, size_t b", "return m.view(a, b).find_first();", ret="size_t", **ro)
    w = dict(cont=0, mut=1)
    t.op("resize", "M& m, size_t n, bool v", "m.resize(n, v);", ret="void", **w, bvresize=1)
    t.op("ctor", "void* p, size_t n, bool v", "new (p) M(n, v);", ret="void", out=0, bvresize=1, bvctor=1)
    for n, e in (("set", "m.set()"), ("reset", "m.reset()"), ("flip", "m.flip()")):
        t.op(n, "M& m", e + ";", ret="void", **w)
    for n, e in (("set1", "m.set(i)"), ("reset1", "m.reset(i)"), ("flip1", "m.flip(i)"), ("set2", "m.set(i, v)")):
        t.op(n, "M& m, size_t i, bool v", e + ";", ret="void", **w, idx=1)
    for n, e in (("ior", "a |= b"), ("iand", "a &= b"), ("ixor", "a ^= b"), ("isub", "a -= b"), ("ornot", "a.or_not(b)")):
        t.op(n, "M& a, const M& b", e + ";", ret="void", cont="0,1", mut=1)
    t.op("ishl", "M& a, size_t c", "a <<= c;", ret="void", **w)
    t.op("ishr", "M& a, size_t c", "a >>= c;", ret="void", **w)
    t.op("v_set", "M& m, size_t a, size_t b", "m.view(a, b).set();", ret="void", **w, last=2)
    t.op("v_reset", "M& m, size_t a, size_t b", "m.view(a, b).reset();", ret="void", **w, last=2)
    t.op("v_flip", "M& m, size_t a, size_t b", "m.view(a, b).flip();", ret="void", **w, last=2)
    t.op("swap", "M& a, M& b", "a.swap(b);", ret="void", cont="0,1")
    return t


def soa_tu(TU):
    pre = """#include <cstring>
#include <gtl/soa.hpp>
using M = gtl::soa<V, uint64_t, K>;
extern "C" { extern const size_t w_sizeof_M; const size_t w_sizeof_M = sizeof(M); }
"""
    t = TU("soa", pre, groups={"soa"})
    ro = dict(cont=0, shared=1)
    t.op("size", "const M& m", "return m.size();", ret="size_t", **ro)
    t.op("empty", "const M& m", "return m.empty();", **ro)
    t.op("row", "const M& m, size_t i", "auto r = m[i]; w_cbr__R(&std::get<0>(r)); w_cbr__R(&std::get<2>(r));", ret="void", **ro)
    t.op("view", "const M& m, size_t i", "auto r = m.view<0, 2>(i); w_cbr__R(&std::get<0>(r)); w_cbr__R(&std::get<1>(r));", ret="void", **ro)
    t.op("column", "const M& m", "return &m.get_column<1>();", ret="const void*", **ro)
    w = dict(cont=0, soaop=1)
    t.op("insert", "M& m, const V& a, uint64_t b, const K& c", "m.insert(a, b, c);", ret="void", **w)
    t.op("resize", "M& m, size_t n", "m.resize(n);", ret="void", **w)
    t.op("reserve", "M& m, size_t n", "m.reserve(n);", ret="void", **w)
    t.op("clear", "M& m", "m.clear();", ret="void", **w)
    t.op("sort", "M& m", "m.sort_by_field<0>([](const V& a, const V& b) { return w_veq__RR(&a, &b); });", ret="void", cont=0, soasort=1)
    return t


def intrusive_tu(TU):
    pre = """#include <utility>
#include <functional>
#include <gtl/intrusive.hpp>
extern "C" { void w_addref__R(const void*) noexcept; void w_release__R(const void*) noexcept; }
struct T { int x; virtual ~T(); };
struct D : T { int y; };
inline void intrusive_ptr_add_ref(const T* p) noexcept { w_addref__R(p); }
inline void intrusive_ptr_release(const T* p) noexcept { w_release__R(p); }
using P = gtl::intrusive_ptr<T>;
using PD = gtl::intrusive_ptr<D>;
using PC = gtl::intrusive_ptr<const T>;
"""
    t = TU("ip", pre, groups={"intrusive"})
    def o(name, params, body, ret="void", **k):
        t.op(name, params, body, ret=ret, refs=1, **k)
    o("ctor_0", "void* p", "new (p) P();", hout="0")
    o("ctor_raw", "void* p, T* q", "new (p) P(q);", hout="0")
    o("ctor_raw_noadd", "void* p, T* q", "new (p) P(q, false);", hout="0", rawin="1")
    o("ctor_copy", "void* p, const P& q", "new (p) P(q);", hin="1", hout="0,1", cont=1, out=0, shared=1)
    o("ctor_move", "void* p, P& q", "new (p) P(std::move(q));", hin="1", hout="0,1", mvsrc=1)
    o("ctor_conv", "void* p, const PD& q", "new (p) P(q);", hin="1", hout="0,1")
    o("ctor_conv_move", "void* p, PD& q", "new (p) P(std::move(q));", hin="1", hout="0,1")
    o("ctor_const", "void* p, const P& q", "new (p) PC(q);", hin="1", hout="0,1")
    o("dtor", "P& p", "p.~P();", hin="0", hout="")
    o("assign_copy", "P& p, const P& q", "p = q;", hin="0,1", hout="0,1", asg=1)
    o("assign_move", "P& p, P& q", "p = std::move(q);", hin="0,1", hout="0,1", asg=1)
    o("assign_conv", "P& p, PD& q", "p = P(q);", hin="0,1", hout="0,1", asg=1)
    o("assign_conv_move", "P& p, PD& q", "p = std::move(q);", hin="0,1", hout="0,1", asg=1)
    o("assign_raw", "P& p, T* q", "p = q;", hin="0", hout="0", asg=1)
    o("reset", "P& p", "p.reset();", hin="0", hout="0")
    o("reset_raw", "P& p, T* q", "p.reset(q);", hin="0", hout="0", asg=1)
    o("reset_raw_add", "P& p, T* q", "p.reset(q, true);", hin="0", hout="0", asg=1)
    o("reset_raw_noadd", "P& p, T* q", "p.reset(q, false);", hin="0", hout="0", rawin="1", asg=1)
    o("detach", "P& p", "return p.detach();", ret="T*", hin="0", hout="0", rawout=1)
    o("swap", "P& p, P& q", "p.swap(q);", hin="0,1", hout="0,1", noref=1)
    o("swap_f", "P& p, P& q", "using gtl::swap; swap(p, q);", hin="0,1", hout="0,1", noref=1)
    ro = dict(cont=0, shared=1, noref=1)
    o("get", "const P& p", "return p.get();", ret="T*", hin="0", hout="0", **ro)
    o("deref", "const P& p", "return &*p;", ret="T*", hin="0", hout="0", **ro)
    o("arrow", "const P& p", "return p.operator->();", ret="T*", hin="0", hout="0", **ro)
    o("boolop", "const P& p", "return (bool)p;", ret="bool", hin="0", hout="0", **ro)
    o("eqop", "const P& p, const P& q", "return p == q;", ret="bool", hin="0,1", hout="0,1", **ro)
    o("neop", "const P& p, const P& q", "return p != q;", ret="bool", hin="0,1", hout="0,1", **ro)
    o("ltop", "const P& p, const P& q", "return p < q;", ret="bool", hin="0,1", hout="0,1", **ro)
    o("eqraw", "const P& p, T* q", "return p == q;", ret="bool", hin="0", hout="0", **ro)
    o("hash", "const P& p", "return std::hash<P>()(p);", ret="size_t", hin="0", hout="0", **ro)
    for c, rt in (("static_pointer_cast<D>", "PD"), ("dynamic_pointer_cast<D>", "PD"), ("const_pointer_cast<T>", "P")):
        n = c.split("_")[0]
        o(n + "_cast", "void* r, const P& p", f"new (r) {rt}(gtl::{c}(p));", hin="1", hout="0,1")
        o(n + "_cast_m", "void* r, P& p", f"new (r) {rt}(gtl::{c}(std::move(p)));", hin="1", hout="0,1")
    return t


def refcount_tu(TU):
    pre = """#include <utility>
#include <gtl/intrusive.hpp>
extern "C" { void w_objdtor__W(void*) noexcept; }
struct O : gtl::intrusive_ref_counter<O, gtl::thread_safe_counter> { ~O() { w_objdtor__W(this); } };
struct OU : gtl::intrusive_ref_counter<OU, gtl::thread_unsafe_counter> { ~OU() { w_objdtor__W(this); } };
"""
    t = TU("rc", pre, groups={"refcount"})
    for c, ts in (("O", 1), ("OU", 0)):
        s = c.lower()
        def o(name, params, body, ret="void", **k):
            t.op(s + "_" + name, params, body, ret=ret, ts=ts, **k)
        o("add", f"const {c}* p", "intrusive_ptr_add_ref(p);", rc="add", cont=0)
        o("release", f"const {c}* p", "intrusive_ptr_release(p);", rc="release", cont=0)
        o("use_count", f"const {c}* p", "return p->use_count();", ret="unsigned", rc="use", cont=0)
        o("ctor", "void* p", f"new (p) {c};", rc="ctor", cont=0)
        o("copy", f"void* p, const {c}& q", f"new (p) {c}(q);", rc="ctor", cont=0)
        o("assign", f"{c}& p, const {c}& q", "p = q;", rc="assign", cont=0)
    return t


def scope_tu(TU):
    pre = """#include <gtl/utils.hpp>
extern "C" { void w_set__(); void w_unset__(); void w_body__(); }
struct Set { void operator()() const { w_set__(); } };
struct Unset { void operator()() const { w_unset__(); } };
template<class G> void w_moved(G& g) {
    if constexpr (std::is_move_constructible_v<G>) { G h(std::move(g)); w_body__(); } else w_body__();
}
"""
    t = TU("sg", pre, groups={"scope"})
    for dis in (0, 1):
        d = "if (w_pick__()) g.dismiss(); w_body__();" if dis else ""
        n = "_d" if dis else ""
        t.op("set_unset" + n, "bool e", "gtl::scoped_set_unset<Unset> g(Set{}, Unset{}, e); w_body__(); " + d, ret="void", sg="su", en=0)
        t.op("set_unset_def" + n, "", "gtl::scoped_set_unset<Unset> g(Set{}, Unset{}); w_body__(); " + d, ret="void", sg="su")
        t.op("guard" + n, "bool e", "gtl::scoped_guard<Unset> g(Unset{}, e); w_body__(); " + d, ret="void", sg="g", en=0)
        t.op("guard_def" + n, "", "gtl::scoped_guard<Unset> g(Unset{}); w_body__(); " + d, ret="void", sg="g")
        t.op("value" + n, "V& var, const V& val, bool e", "gtl::scoped_set_value<V> g(var, val, e); w_body__(); " + d, ret="void", sg="v", en=2)
        t.op("value_m" + n, "V& var, V& val, bool e", "gtl::scoped_set_value<V> g(var, std::move(val), e); w_body__(); " + d, ret="void", sg="v", en=2)
        t.op("value_def" + n, "V& var, const V& val", "gtl::scoped_set_value<V> g(var, val); w_body__(); " + d, ret="void", sg="v")
    # a guard that can be moved hands its duty over
    t.op("set_unset_mv", "bool e", "gtl::scoped_set_unset<Unset> g(Set{}, Unset{}, e); w_moved(g);", ret="void", sg="su", en=0)
    t.op("guard_mv", "bool e", "gtl::scoped_guard<Unset> g(Unset{}, e); w_moved(g);", ret="void", sg="g", en=0)
    t.op("value_mv", "V& var, const V& val, bool e", "gtl::scoped_set_value<V> g(var, val, e); w_moved(g);", ret="void", sg="v", en=2)
    return t


def misc_tus(TU):
    r = []
    for k in ("set", "map", "multiset", "multimap"):
        r.append(btree_tu(k, TU))
    r += [vector_tu("WA", TU), vector_tu("STD", TU), vector_tu("TRIV", TU), vector_tu("WAX", TU), vector_tu("STDX", TU), bitvec_tu(TU), soa_tu(TU), intrusive_tu(TU), refcount_tu(TU), scope_tu(TU)]
    return r
