"""Witness translation units: for each container configuration, the table of operations to analyse.

An op is (name, parameters, body, tags).  Tags fill the slots of the rules:
  cont=0[,1]  argument numbers that are the analysed containers
  keyed=1     looks up one key;  whole=1 visits submaps;  two=1 two containers
  cta=1       check-then-act;    shared=1 read-only op (must not write)
  ret=...     what the boolean/count result claims
"""

class TU:
    def __init__(self, name, prelude, groups=(), flags=(), n=1, consts=None):
        self.name, self.prelude, self.groups, self.flags = name, prelude, set(groups), list(flags)
        self.n = n            # number of submaps
        self.fam = next((f for f in ("flat", "node", "btree", "vector") if f in self.groups), "")
        self.ops = []
        self.consts = consts or {}

    def op(self, name, params, body, ret="bool", **tags):
        if {"ins", "assign", "nodeins", "cbi"} & set(tags) and "args" not in tags:
            a = [str(i) for i, q in enumerate(params.split(", ")) if i and ("&" in q or "*" in q) and "iterator" not in q]
            if a:
                tags = dict(tags, args=",".join(a))
        self.ops.append((name, ret, params, body, tags))

    def source(self):
        s = ['#include "wit.h"', self.prelude]
        if "WA<" in self.prelude:
            s.append('extern "C" { extern const size_t w_user_alloc; const size_t w_user_alloc = 1; }')
        for name, ret, params, body, tags in self.ops:
            s.append(f"OP {ret} op_{name}({params}) {{ {body} }}")
        return "\n".join(s) + "\n"

    def spec(self):
        out = []
        for name, ret, params, body, tags in self.ops:
            t = dict(tags)
            t.setdefault("n", self.n)
            if self.fam:
                t.setdefault("fam", self.fam)
            out.append("op_%s %s" % (name, " ".join(f"{k}={v}" for k, v in sorted(t.items()))))
        return "\n".join(out) + "\n"


def is_map(kind):
    return kind.endswith("map")


# ------------------------------------------------------------------ single-threaded hash containers
def raw_tu(kind, alloc="WA", extra_flags=(), suffix="", elem="opaque"):
    """kind in flat_map node_map flat_set node_set; alloc WA | STD"""
    mp = is_map(kind)
    val = "std::pair<const K, V>" if mp else "K"
    al = {"WA": f"WA<{val}>", "STD": f"std::allocator<{val}>"}[alloc]
    cls = kind.replace("flat_", "flat_hash_").replace("node_", "node_hash_")
    targs = f"K, V, H, E, {al}" if mp else f"K, H, E, {al}"
    pre = f"""#include <gtl/phmap.hpp>
using M = gtl::{cls}<{targs}>;
using VT = M::value_type;
using IT = M::init_type;
extern "C" {{ extern const size_t w_sizeof_M; const size_t w_sizeof_M = sizeof(M); }}
"""
    t = TU(f"r_{kind}_{alloc.lower()}{suffix}", pre, groups={"raw", "raw_" + alloc, kind, kind.split("_")[0], "r" + kind.split("_")[0]}, flags=extra_flags)
    rd = dict(cont=0, keyed=1, shared=1, key=1)
    ctor = "c(k, V())" if mp else "c(k)"
    t.op("hash", "const M& m, const K& k", "return m.hash(k);", ret="size_t", aux=1)
    t.op("size", "const M& m", "return m.size();", ret="size_t", cont=0, shared=1, query="size")
    t.op("capacity", "const M& m", "return m.capacity();", ret="size_t", cont=0, shared=1, query="capacity")
    t.op("empty", "const M& m", "return m.empty();", cont=0, shared=1)
    t.op("load_factor", "const M& m", "return m.load_factor();", ret="float", cont=0, shared=1)
    t.op("iterate", "const M& m", "for (auto& v : m) w_cbr__R(&v);", ret="void", cont=0, shared=1)
    t.op("eqop", "const M& a, const M& b", "return a == b;", cont="0,1", shared=1)
    t.op("copy_ctor", "const M& a, void* p", "new (p) M(a);", ret="void", cont=0, shared=1, out=1, copyop=1)
    t.op("find", "M& m, const K& k", "return m.find(k) != m.end();", **rd, ret_="found")
    t.op("find_c", "const M& m, const K& k", "return m.find(k) != m.end();", **rd, ret_="found")
    t.op("find_p", "M& m, const K& k", "return &*m.find(k);", ret="const void*", **rd, retptr=1)
    t.op("find_h", "M& m, const K& k, size_t h", "return m.find(k, h) != m.end();", **rd, ret_="found", harg=2)
    t.op("contains", "const M& m, const K& k", "return m.contains(k);", **rd, ret_="found")
    t.op("contains_h", "const M& m, const K& k, size_t h", "return m.contains(k, h);", **rd, ret_="found", harg=2)
    t.op("count", "const M& m, const K& k", "return m.count(k);", ret="size_t", **rd, ret_="found")
    t.op("equal_range", "M& m, const K& k", "auto r = m.equal_range(k); return r.first != r.second;", **rd, ret_="found")
    if mp:
        t.op("at", "M& m, const K& k", "return &m.at(k);", ret="const void*", **rd, retptr=1, thr=1)
        t.op("at_c", "const M& m, const K& k", "return &m.at(k);", ret="const void*", **rd, retptr=1, thr=1)
    cta = dict(cont=0, keyed=1, key=1)
    # erasure
    t.op("erase", "M& m, const K& k", "return m.erase(k);", ret="size_t", **cta, ret_="erased", er=1)
    t.op("extract", "M& m, const K& k, void* p", "new (p) M::node_type(m.extract(k));", ret="void", **cta, er=1, ext=1, out=2)
    t.op("erase_it", "M& m, M::iterator& it", "m.erase(it);", ret="void", cont=0, er=1, it=1)
    t.op("_erase_it", "M& m, M::iterator& it", "m._erase(it);", ret="void", cont=0, er=1, it=1)
    t.op("extract_it", "M& m, M::iterator& it, void* p", "new (p) M::node_type(m.extract(it));", ret="void", cont=0, er=1, it=1, ext=1, out=2)
    t.op("erase_range", "M& m, M::const_iterator& a, M::const_iterator& b", "m.erase(a, b);", ret="void", cont=0, er=1, it="1,2", multi=1)
    t.op("erase_if_f", "M& m", "gtl::erase_if(m, [](const VT& v) { return w_cbq__R(&v); });" if False else "erase_if(m, [](auto& v) { return w_cbq__R(&v); });", ret="void", cont=0, er=1, multi=1)
    t.op("clear", "M& m", "m.clear();", ret="void", cont=0, er=1, whole=1)
    t.op("dtor", "M& m", "m.~M();", ret="void", cont=0, er=1, whole=1, dtor=1)
    # insertion
    ins = dict(cta, ret_="inserted", ins=1, key=-1)
    def I(**kw):
        d = dict(ins); d.update(kw); return d
    t.op("insert_c", "M& m, const VT& v", "return m.insert(v).second;", **I(args=1))
    t.op("insert_m", "M& m, VT&& v", "return m.insert(std::move(v)).second;", **I(args=1))
    t.op("insert_hint", "M& m, const VT& v, M::const_iterator& it", "m.insert(it, v);", ret="void", **I(args=1, ret_="none"))
    t.op("insert_hint_m", "M& m, VT&& v, M::const_iterator& it", "m.insert(it, std::move(v));", ret="void", **I(args=1, ret_="none"))
    t.op("insert_range", "M& m, const VT* a, const VT* b", "m.insert(a, b);", ret="void", cont=0, insmulti=1, args=1)
    t.op("insert_node", "M& m, M::node_type& nh", "return m.insert(std::move(nh)).inserted;", **dict(cta, ret_="inserted", nodeins=1, args=1, key=-1))
    t.op("emplace_v", "M& m, const VT& v", "return m.emplace(v).second;", **I(args=1))
    t.op("emplace_vh", "M& m, const VT& v, size_t h", "return m.emplace_with_hash(h, v).second;", **I(args=1), harg=2)
    t.op("emplace_hint", "M& m, const VT& v, M::const_iterator& it", "m.emplace_hint(it, v);", ret="void", **I(args=1, ret_="none"))
    t.op("emplace_hint_h", "M& m, const VT& v, M::const_iterator& it, size_t h", "m.emplace_hint_with_hash(h, it, v);", ret="void", **I(args=1, ret_="none"), harg=3)
    t.op("lazy_emplace", "M& m, const K& k", "m.lazy_emplace(k, [&](const M::constructor& c) { w_cbe__(); " + ctor + "; });", ret="void", **dict(I(args=1, ret_="none"), cbi=1))
    t.op("lazy_emplace_h", "M& m, const K& k, size_t h", "m.lazy_emplace_with_hash(k, h, [&](const M::constructor& c) { w_cbe__(); " + ctor + "; });", ret="void", **dict(I(args=1, ret_="none"), cbi=1), harg=2)
    if mp:
        t.op("emplace_nd", "M& m, V& v", "return m.emplace(std::piecewise_construct, std::forward_as_tuple(1, 2), std::forward_as_tuple(std::move(v))).second;", cont=0, nd=1)
        t.op("emplace_ndh", "M& m, V& v, size_t h", "return m.emplace_with_hash(h, std::piecewise_construct, std::forward_as_tuple(1, 2), std::forward_as_tuple(std::move(v))).second;", cont=0, nd=1)
        t.op("insert_init", "M& m, IT&& v", "return m.insert(std::move(v)).second;", **I(args=1))
        t.op("emplace_kv", "M& m, const K& k, const V& v", "return m.emplace(k, v).second;", **I(args="1,2"))
        t.op("emplace_kvm", "M& m, K& k, V& v", "return m.emplace(std::move(k), std::move(v)).second;", **I(args="1,2"))
        t.op("emplace_kvh", "M& m, const K& k, const V& v, size_t h", "return m.emplace_with_hash(h, k, v).second;", **I(args="1,2"), harg=3)
        t.op("emplace_pw", "M& m, K& k, V& v", "return m.emplace(std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple(std::move(v))).second;", **I(args="1,2"))
        t.op("try_emplace_c", "M& m, const K& k, V& v", "return m.try_emplace(k, std::move(v)).second;", **I(args="1,2"))
        t.op("try_emplace_m", "M& m, K& k, V& v", "return m.try_emplace(std::move(k), std::move(v)).second;", **I(args="1,2"))
        t.op("try_emplace_hint", "M& m, K& k, V& v, M::const_iterator& it", "m.try_emplace(it, std::move(k), std::move(v));", ret="void", **I(args="1,2", ret_="none"))
        t.op("try_emplace_hint_c", "M& m, const K& k, V& v, M::const_iterator& it", "m.try_emplace(it, k, std::move(v));", ret="void", **I(args="1,2", ret_="none"))
        t.op("insert_or_assign", "M& m, const K& k, V& v", "return m.insert_or_assign(k, std::move(v)).second;", **dict(cta, key=-1, ret_="inserted", assign=1, args="1,2"))
        t.op("insert_or_assign_m", "M& m, K& k, V& v", "return m.insert_or_assign(std::move(k), std::move(v)).second;", **dict(cta, key=-1, ret_="inserted", assign=1, args="1,2"))
        t.op("insert_or_assign_mc", "M& m, K& k, const V& v", "return m.insert_or_assign(std::move(k), v).second;", **dict(cta, key=-1, ret_="inserted", assign=1, args="1,2"))
        t.op("insert_or_assign_hint", "M& m, K& k, V& v, M::const_iterator& it", "m.insert_or_assign(it, k, std::move(v));", ret="void", **dict(cta, key=-1, assign=1, args="1,2"))
        t.op("subscript_c", "M& m, const K& k", "return &m[k];", ret="void*", **I(args=1, ret_="none"))
        t.op("subscript_m", "M& m, K& k", "return &m[std::move(k)];", ret="void*", **I(args=1, ret_="none"))
    else:
        t.op("emplace_nd", "M& m", "return m.emplace(1, 2).second;", cont=0, nd=1)
        t.op("emplace_ndh", "M& m, size_t h", "return m.emplace_with_hash(h, 1, 2).second;", cont=0, nd=1)
    # growth, whole-container
    t.op("rehash", "M& m, size_t n", "m.rehash(n);", ret="void", cont=0, reloc=1)
    t.op("reserve", "M& m, size_t n", "m.reserve(n);", ret="void", cont=0, reloc=1)
    t.op("merge", "M& a, M& b", "a.merge(b);", ret="void", cont="0,1", mergeop=1)
    t.op("merge_m", "M& a, M& b", "a.merge(std::move(b));", ret="void", cont="0,1", mergeop=1)
    t.op("swap", "M& a, M& b", "a.swap(b);", ret="void", cont="0,1", swapop=1)
    t.op("swap_f", "M& a, M& b", "using std::swap; swap(a, b);", ret="void", cont="0,1", swapop=2)
    t.op("move_ctor", "M& a, void* p", "new (p) M(std::move(a));", ret="void", cont=0, out=1, movector=1)
    t.op("move_ctor_a", "M& a, void* p, const M::allocator_type& al", "new (p) M(std::move(a), al);", ret="void", cont=0, out=1, movector=1)
    t.op("default_ctor", "void* p", "new (p) M();", ret="void", out=0, defctor=1)
    t.op("move_assign", "M& a, M& b", "a = std::move(b);", ret="void", cont="0,1", moveassign=1)
    t.op("copy_assign", "M& a, const M& b", "a = b;", ret="void", cont="0,1", copyassign=1)
    t.op("ctor_n", "void* p, size_t n", "new (p) M(n);", ret="void", out=0, ctorop=1)
    t.op("ctor_range", "void* p, const VT* a, const VT* b", "new (p) M(a, b);", ret="void", out=0, ctorop=1)
    return t


# ------------------------------------------------------------------ parallel containers
def parallel_tu(kind, mutex, alloc="WA", n=4, extra_flags=(), suffix="", aux=False):
    """kind in flat_map node_map flat_set node_set; mutex: W | SM | STD | BOOST | ABSL"""
    mp = is_map(kind)
    val = "std::pair<const K, V>" if mp else "K"
    al = {"WA": f"WA<{val}>", "STD": f"std::allocator<{val}>"}[alloc]
    mt = {"W": "WMutex", "SM": "std::shared_mutex", "STD": "std::mutex", "NULL": "gtl::NullMutex",
          "BOOST": "boost::shared_mutex", "ABSL": "absl::Mutex"}[mutex]
    cls = {"flat_map": "parallel_flat_hash_map", "node_map": "parallel_node_hash_map",
           "flat_set": "parallel_flat_hash_set", "node_set": "parallel_node_hash_set"}[kind]
    targs = f"K, V, H, E, {al}, {n}, {mt}" if mp else f"K, H, E, {al}, {n}, {mt}"
    pre = ""
    if mutex == "BOOST":
        pre += "#include <boost/thread/shared_mutex.hpp>\n#include <boost/thread/locks.hpp>\n"
    if mutex == "ABSL":
        pre += '#include "absl_stub.h"\n'
    pre += f"""#include <mutex>
#include <shared_mutex>
#include <gtl/phmap.hpp>
using M = gtl::{cls}<{targs}>;
using VT = M::value_type;
using IT = M::init_type;
extern "C" {{ extern const size_t w_sizeof_M; const size_t w_sizeof_M = sizeof(M); }}
"""
    t = TU(f"p_{kind}_{mutex.lower()}{suffix}", pre, groups={"parallel", mutex, kind, kind.split("_")[0], "p" + kind.split("_")[0]}, n=2 ** n,
           flags=extra_flags)
    t.op("sub_size", "const M::EmbeddedSet& s", "return s.size();", ret="size_t", aux=1)
    t.op("hash", "const M& m, const K& k", "return m.hash(k);", ret="size_t", aux=1)
    t.op("sub_capacity", "const M::EmbeddedSet& s", "return s.capacity();", ret="size_t", aux=1)
    rd = dict(cont=0, keyed=1, shared=1)
    cta = dict(cont=0, keyed=1, cta=1)
    ctor = "c(k, V())" if mp else "c(k)"
    # lookups
    t.op("find", "M& m, const K& k", "return m.find(k) != m.end();", **rd, ret_="found")
    t.op("find_c", "const M& m, const K& k", "return m.find(k) != m.end();", **rd, ret_="found")
    t.op("find_h", "M& m, const K& k, size_t h", "return m.find(k, h) != m.end();", **rd, ret_="found", harg=2)
    t.op("contains", "const M& m, const K& k", "return m.contains(k);", **rd, ret_="found")
    t.op("contains_h", "const M& m, const K& k, size_t h", "return m.contains(k, h);", **rd, ret_="found", harg=2)
    t.op("count", "const M& m, const K& k", "return m.count(k);", ret="size_t", **rd, ret_="found")
    t.op("if_contains", "const M& m, const K& k", "return m.if_contains(k, [](const VT& v) { w_cbr__R(&v); });",
         **rd, ret_="called", cb="cbr")
    t.op("prefetch_hash", "const M& m, size_t h", "m.prefetch_hash(h);", ret="void", cont=0, shared=1)
    # callbacks
    t.op("modify_if", "M& m, const K& k", "return m.modify_if(k, [](VT& v) { w_cbw__W((void*)&v); });",
         **cta, ret_="called", cb="cbw")
    t.op("erase_if", "M& m, const K& k", "return m.erase_if(k, [](VT& v) { return w_cbp__W((void*)&v); });",
         **cta, ret_="erased", cb="cbp")
    t.op("erase", "M& m, const K& k", "return m.erase(k);", ret="size_t", **cta, ret_="erased")
    t.op("lazy_emplace_l", "M& m, const K& k",
         "return m.lazy_emplace_l(k, [](VT& v) { w_cbw__W((void*)&v); }, [&](const M::constructor& c) { w_cbe__(); " + ctor + "; });",
         **cta, ret_="inserted", cb="cbw", cbi=1, ins=1)
    t.op("lazy_emplace", "M& m, const K& k",
         "m.lazy_emplace(k, [&](const M::constructor& c) { w_cbe__(); " + ctor + "; });", ret="void", **cta, cbi=1, ins=1)
    t.op("lazy_emplace_h", "M& m, const K& k, size_t h",
         "m.lazy_emplace_with_hash(k, h, [&](const M::constructor& c) { w_cbe__(); " + ctor + "; });", ret="void", **cta, cbi=1, harg=2, ins=1)
    t.op("emplace_single", "M& m, const K& k",
         "m.emplace_single(k, [&](const M::constructor& c) { w_cbe__(); " + ctor + "; });", ret="void", **cta, cbi=1, toggle=1)
    t.op("emplace_single_h", "M& m, const K& k, size_t h",
         "m.emplace_single_with_hash(k, h, [&](const M::constructor& c) { w_cbe__(); " + ctor + "; });", ret="void", **cta, cbi=1, toggle=1, harg=2)
    # insertion
    ins = dict(cta, ret_="inserted", ins=1)
    t.op("insert_c", "M& m, const VT& v", "return m.insert(v).second;", **ins)
    t.op("insert_m", "M& m, VT&& v", "return m.insert(std::move(v)).second;", **ins)
    t.op("insert_hint", "M& m, const VT& v, M::const_iterator& it", "m.insert(it, v);", ret="void", **dict(ins, ret_="none"))
    t.op("insert_hint_m", "M& m, VT&& v, M::const_iterator& it", "m.insert(it, std::move(v));", ret="void", **dict(ins, ret_="none"))
    t.op("insert_range", "M& m, const VT* a, const VT* b", "m.insert(a, b);", ret="void", cont=0, multi=1)
    t.op("insert_node", "M& m, M::node_type& nh", "return m.insert(std::move(nh)).inserted;", **dict(cta, ret_="inserted", nodeins=1))
    t.op("emplace_v", "M& m, const VT& v", "return m.emplace(v).second;", **ins)
    t.op("emplace_vh", "M& m, const VT& v, size_t h", "return m.emplace_with_hash(h, v).second;", **ins, harg=2)
    t.op("emplace_hint", "M& m, const VT& v, M::const_iterator& it", "m.emplace_hint(it, v);", ret="void", **dict(ins, ret_="none"))
    t.op("emplace_hint_h", "M& m, const VT& v, M::const_iterator& it, size_t h", "m.emplace_hint_with_hash(h, it, v);", ret="void", **dict(ins, ret_="none"), harg=3)
    if mp:
        t.op("insert_init", "M& m, IT&& v", "return m.insert(std::move(v)).second;", **ins)
        t.op("emplace_kv", "M& m, const K& k, const V& v", "return m.emplace(k, v).second;", **ins)
        t.op("emplace_kvm", "M& m, K& k, V& v", "return m.emplace(std::move(k), std::move(v)).second;", **ins)
        t.op("emplace_kvh", "M& m, const K& k, const V& v, size_t h", "return m.emplace_with_hash(h, k, v).second;", **ins, harg=3)
        t.op("emplace_pw", "M& m, K& k, V& v", "return m.emplace(std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple(std::move(v))).second;", **ins)
        t.op("try_emplace_c", "M& m, const K& k, V& v", "return m.try_emplace(k, std::move(v)).second;", **ins)
        t.op("try_emplace_m", "M& m, K& k, V& v", "return m.try_emplace(std::move(k), std::move(v)).second;", **ins)
        t.op("try_emplace_hint", "M& m, K& k, V& v, M::const_iterator& it", "m.try_emplace(it, std::move(k), std::move(v));", ret="void", **dict(ins, ret_="none"))
        t.op("try_emplace_hint_c", "M& m, const K& k, V& v, M::const_iterator& it", "m.try_emplace(it, k, std::move(v));", ret="void", **dict(ins, ret_="none"))
        t.op("try_emplace_h", "M& m, K& k, V& v, size_t h", "return m.try_emplace_with_hash(h, std::move(k), std::move(v)).second;", **ins, harg=3)
        t.op("try_emplace_ch", "M& m, const K& k, V& v, size_t h", "return m.try_emplace_with_hash(h, k, std::move(v)).second;", **ins, harg=3)
        t.op("try_emplace_p", "M& m, const K& k, V& v", "return m.try_emplace_p(k, std::move(v)).second;", **ins)
        t.op("try_emplace_pm", "M& m, K& k, V& v", "return m.try_emplace_p(std::move(k), std::move(v)).second;", **ins)
        t.op("try_emplace_l", "M& m, const K& k, V& v", "return m.try_emplace_l(k, [](VT& x) { w_cbw__W((void*)&x); }, std::move(v));", **ins, cb="cbw")
        t.op("try_emplace_lm", "M& m, K& k, V& v", "return m.try_emplace_l(std::move(k), [](VT& x) { w_cbw__W((void*)&x); }, std::move(v));", **ins, cb="cbw")
        t.op("insert_or_assign", "M& m, const K& k, V& v", "return m.insert_or_assign(k, std::move(v)).second;", **dict(cta, ret_="inserted", assign=1))
        t.op("insert_or_assign_m", "M& m, K& k, V& v", "return m.insert_or_assign(std::move(k), std::move(v)).second;", **dict(cta, ret_="inserted", assign=1))
        t.op("insert_or_assign_c", "M& m, const K& k, const V& v", "return m.insert_or_assign(k, v).second;", **dict(cta, ret_="inserted", assign=1))
        t.op("insert_or_assign_mc", "M& m, K& k, const V& v", "return m.insert_or_assign(std::move(k), v).second;", **dict(cta, ret_="inserted", assign=1))
        t.op("insert_or_assign_hint", "M& m, K& k, V& v, M::const_iterator& it", "m.insert_or_assign(it, k, std::move(v));", ret="void", **dict(cta, assign=1))
        t.op("subscript_c", "M& m, const K& k", "return &m[k];", ret="void*", **dict(cta, ret_="none"), ins=1, retptr=1)
        t.op("subscript_m", "M& m, K& k", "return &m[std::move(k)];", ret="void*", **dict(cta, ret_="none"), ins=1, retptr=1)
        t.op("at", "M& m, const K& k", "return &m.at(k);", ret="void*", **rd, retptr=1, thr=1)
        t.op("at_c", "const M& m, const K& k", "return &m.at(k);", ret="const void*", **rd, retptr=1, thr=1)
    if mp:
        t.op("emplace_nd", "M& m, V& v", "return m.emplace(std::piecewise_construct, std::forward_as_tuple(1, 2), std::forward_as_tuple(std::move(v))).second;", **ins, nd=1)
        t.op("emplace_ndh", "M& m, V& v, size_t h", "return m.emplace_with_hash(h, std::piecewise_construct, std::forward_as_tuple(1, 2), std::forward_as_tuple(std::move(v))).second;", **ins, nd=1, harg=2)
    else:
        t.op("emplace_nd", "M& m", "return m.emplace(1, 2).second;", **ins, nd=1)
        t.op("emplace_ndh", "M& m, size_t h", "return m.emplace_with_hash(h, 1, 2).second;", **ins, nd=1, harg=1)
    # erase / extract
    t.op("extract", "M& m, const K& k, M::node_type& out", "out = m.extract(k);", ret="void", **cta)
    # whole table
    wh = dict(cont=0, whole=1)
    t.op("for_each", "const M& m", "m.for_each([](const VT& v) { w_cbr__R(&v); });", ret="void", **wh, shared=1)
    fm = "[](VT& v) { w_cbw__W((void*)&v); }" if mp else "[](const VT& v) { w_cbr__R(&v); }"
    t.op("for_each_m", "M& m", f"m.for_each_m({fm});", ret="void", **wh)
    if mutex in ("W", "SM", "STD"):
        t.op("for_each_pol", "const M& m", "m.for_each(std::execution::seq, [](const VT& v) { w_cbr__R(&v); });", ret="void", **wh, shared=1)
        t.op("for_each_m_pol", "M& m", f"m.for_each_m(std::execution::seq, {fm});", ret="void", **wh)
    t.op("with_submap", "const M& m, size_t i", "m.with_submap(i, [](const M::EmbeddedSet& s) { w_cbset__R(&s); });", ret="void", **wh, shared=1)
    t.op("with_submap_m", "M& m, size_t i", "m.with_submap_m(i, [](M::EmbeddedSet& s) { w_cbsetm__W(&s); });", ret="void", **wh)
    t.op("clear", "M& m", "m.clear();", ret="void", **wh)
    t.op("clear_i", "M& m, size_t i", "m.clear(i);", ret="void", **wh)
    t.op("rehash", "M& m, size_t n", "m.rehash(n);", ret="void", **wh)
    t.op("reserve", "M& m, size_t n", "m.reserve(n);", ret="void", **wh)
    t.op("bucket_count", "const M& m", "return m.bucket_count();", ret="size_t", **wh, shared=1)
    # two containers
    tw = dict(cont="0,1", two=1)
    t.op("merge", "M& a, M& b", "a.merge(b);", ret="void", **tw)
    t.op("merge_m", "M& a, M& b", "a.merge(std::move(b));", ret="void", **tw)
    t.op("swap", "M& a, M& b", "a.swap(b);", ret="void", **tw, swapop=1, nowords=1)
    t.op("eq", "const M& a, const M& b", "return a == b;", **tw, shared=1)
    t.op("ne", "const M& a, const M& b", "return a != b;", **tw, shared=1)
    t.prelude = "#define _GLIBCXX_USE_TBB_PAR_BACKEND 0\n#include <execution>\n" + t.prelude
    return t


def pdump_tu(mutex, kind="flat_map", n=4, alloc="WA"):
    mp = is_map(kind)
    val = "std::pair<const TK, int>" if mp else "TK"
    al = {"WA": f"WA<{val}>", "STD": f"std::allocator<{val}>"}[alloc]
    mt = {"W": "WMutex", "SM": "std::shared_mutex", "STD": "std::mutex"}[mutex]
    cls = {"flat_map": "parallel_flat_hash_map", "flat_set": "parallel_flat_hash_set"}[kind]
    targs = f"TK, int, H, E, {al}, {n}, {mt}" if mp else f"TK, H, E, {al}, {n}, {mt}"
    pre = f"""#include <mutex>
#include <shared_mutex>
#include <iostream>
#include <gtl/phmap.hpp>
#include <gtl/phmap_dump.hpp>
using M = gtl::{cls}<{targs}>;
extern "C" {{ extern const size_t w_sizeof_M; const size_t w_sizeof_M = sizeof(M); }}
"""
    t = TU(f"pdump_{kind}_{mutex.lower()}", pre, groups={"parallel", "pdump", mutex, kind}, n=2 ** n)
    t.op("dump", "const M& m, SaveAr& ar", "return m.phmap_dump(ar);", cont=0, whole=1, dumpop=1)
    t.op("load", "M& m, LoadAr& ar", "return m.phmap_load(ar);", cont=0, whole=1, loadop=1)
    return t


def het_tu(kind, par):
    """lookups by a foreign key through transparent functors; kind as above or btree set/map/multiset/multimap"""
    mp, bt = is_map(kind), kind.startswith("b_")
    val = "std::pair<const K, V>" if mp else "K"
    if bt:
        cls, targs, hdr = "btree_" + kind[2:], (f"K, V, TL, WA<{val}>" if mp else f"K, TL, WA<{val}>"), "btree"
    else:
        cls = kind.replace("flat_", "flat_hash_").replace("node_", "node_hash_")
        targs, hdr = (f"K, V, TH, TE, WA<{val}>" if mp else f"K, TH, TE, WA<{val}>"), "phmap"
        if par:
            cls, targs = "parallel_" + cls, targs + ", 4, WMutex"
    pre = f"""#include <mutex>
#include <shared_mutex>
#include <gtl/{hdr}.hpp>
using M = gtl::{cls}<{targs}>;
using VT = M::value_type;
extern "C" {{ extern const size_t w_sizeof_M; const size_t w_sizeof_M = sizeof(M); }}
"""
    t = TU(f"het_{'p_' if par else ''}{kind}", pre, groups={"het"} | ({"parallel"} if par else set() if bt else {"raw"}) | (set() if bt else {"hethash"}), n=16 if par else 1)
    if not bt:
        t.op("hash", "const M& m, const Q& k", "return m.hash(k);", ret="size_t", aux=1)
        t.op("insert_k", "M& m, const VT& v", "return m.insert(v).second;", cont=0, plain=1)
        t.op("contains_k", "M& m, const K& v", "return m.contains(v);", cont=0, plain=1)
    rd = dict(cont=0, het=1, key=1, fam2="btree" if bt else "hash")
    if not bt:
        rd.update(keyed=1, shared=1)
    F = dict(ret_="found") if not bt else {}
    t.op("find", "M& m, const Q& k", "return m.find(k) != m.end();", **rd, **F)
    t.op("find_c", "const M& m, const Q& k", "return m.find(k) != m.end();", **rd, **F)
    t.op("contains", "const M& m, const Q& k", "return m.contains(k);", **rd, **F)
    t.op("count", "const M& m, const Q& k", "return m.count(k);", ret="size_t", **rd, **F)
    t.op("equal_range", "M& m, const Q& k", "auto r = m.equal_range(k); return r.first != r.second;", **(dict(cont=0, het=1, iter=1) if par else {**rd, **F}))
    t.op("equal_range_c", "const M& m, const Q& k", "auto r = m.equal_range(k); return r.first != r.second;", **(dict(cont=0, het=1, iter=1) if par else {**rd, **F}))
    if mp and "multi" not in kind:
        t.op("at", "M& m, const Q& k", "return &m.at(k);", ret="const void*", **rd, retptr=1, thr=1)
        t.op("at_c", "const M& m, const Q& k", "return &m.at(k);", ret="const void*", **rd, retptr=1, thr=1)
    er = {k: v for k, v in rd.items() if k != "shared"}
    if par:
        er["cta"] = 1
    t.op("erase", "M& m, const Q& k", "return m.erase(k);", ret="size_t", **er, **({} if bt else dict(ret_="erased")))
    if bt:
        t.op("lower_bound", "M& m, const Q& k", "return m.lower_bound(k) != m.end();", **rd)
        t.op("upper_bound", "M& m, const Q& k", "return m.upper_bound(k) != m.end();", **rd)
        t.op("lower_bound_c", "const M& m, const Q& k", "return m.lower_bound(k) != m.end();", **rd)
        t.op("upper_bound_c", "const M& m, const Q& k", "return m.upper_bound(k) != m.end();", **rd)
    if par:
        t.op("if_contains", "const M& m, const Q& k", "return m.if_contains(k, [](const VT& v) { w_cbr__R(&v); });", **rd, cb="cbr", ret_="called")
        fm = "[](VT& v) { w_cbw__W((void*)&v); }" if mp else "[](const VT& v) { w_cbr__R(&v); }"
        t.op("modify_if", "M& m, const Q& k", f"return m.modify_if(k, {fm});", **er, cb="cbw", ret_="called")
        t.op("erase_if", "M& m, const Q& k", "return m.erase_if(k, [](VT& v) { return w_cbp__W((void*)&v); });", **er, cb="cbp", ret_="erased")
    return t


def aux_state_tu(kind, n=0):
    """a one-shard parallel container with an auxiliary container, whose state moves and swaps along"""
    mp = is_map(kind)
    val = "std::pair<const K, V>" if mp else "K"
    cls = "parallel_" + kind.replace("flat_", "flat_hash_").replace("node_", "node_hash_")
    pre = f"""#include <mutex>
#include <gtl/phmap.hpp>
struct Aux {{
    size_t s = 0xA5A5A5A5A5A5A5A5;
    Aux() = default;
    Aux(Aux&& o) noexcept : s(o.s) {{ o.s = 0xA5A5A5A5A5A5A5A5; }}
    Aux& operator=(Aux&& o) noexcept {{ s = o.s; o.s = 0xA5A5A5A5A5A5A5A5; return *this; }}
    friend void swap(Aux& a, Aux& b) noexcept {{ size_t t = a.s; a.s = b.s; b.s = t; }}
    void clear() {{ s = 0xA5A5A5A5A5A5A5A5; }}
}};
using M = gtl::{cls}<{"K, V, H, E" if mp else "K, H, E"}, WA<{val}>, {n}, gtl::NullMutex, Aux>;
"""
    t = TU(f"st_aux{n or ''}_{kind}", pre, groups={"state"})
    t.op("size", "const M& m", "return m.size();", ret="size_t", cont=0, shared=1)
    t.op("capacity", "const M& m", "return m.capacity();", ret="size_t", cont=0, shared=1)
    t.op("default_ctor", "void* p", "new (p) M();", ret="void", out=0, defctor=1)
    t.op("swap", "M& a, M& b", "a.swap(b);", ret="void", cont="0,1", swapop=1)
    t.op("move_ctor", "M& a, void* p", "new (p) M(std::move(a));", ret="void", cont=0, out=1, movector=1, viatemp=1)
    t.op("move_assign", "M& a, M& b", "a = std::move(b);", ret="void", cont="0,1", moveassign=1)
    return t


def state_tu(kind, bt=False):
    """whole-container moves with function objects that carry state (every byte 0xA5 when default constructed)"""
    mp = is_map(kind)
    val = "std::pair<const K, V>" if mp else "K"
    if bt:
        cls, targs, hdr = "btree_" + kind, (f"K, V, SL, WA<{val}>" if mp else f"K, SL, WA<{val}>"), "btree"
    else:
        cls = kind.replace("flat_", "flat_hash_").replace("node_", "node_hash_")
        targs, hdr = (f"K, V, SH, SE, WA<{val}>" if mp else f"K, SH, SE, WA<{val}>"), "phmap"
    pre = f"""#include <gtl/{hdr}.hpp>
struct SH {{ size_t s = 0xA5A5A5A5A5A5A5A5; size_t operator()(const K& k) const {{ return w_hash__R(&k); }} }};
struct SE {{ size_t s = 0xA5A5A5A5A5A5A5A5; bool operator()(const K& a, const K& b) const {{ return w_eq__RR(&a, &b); }} }};
struct SL {{ size_t s = 0xA5A5A5A5A5A5A5A5; bool operator()(const K& a, const K& b) const {{ return w_less__RR(&a, &b); }} }};
using M = gtl::{cls}<{targs}>;
"""
    t = TU(f"st_{'b_' if bt else ''}{kind}", pre, groups={"state"})
    t.op("size", "const M& m", "return m.size();", ret="size_t", cont=0, shared=1)
    if not bt:
        t.op("capacity", "const M& m", "return m.capacity();", ret="size_t", cont=0, shared=1)
        t.op("move_ctor_a", "M& a, void* p, const M::allocator_type& al", "new (p) M(std::move(a), al);", ret="void", cont=0, out=1, movector=1)
    t.op("default_ctor", "void* p", "new (p) M();", ret="void", out=0, defctor=1)
    t.op("swap", "M& a, M& b", "a.swap(b);", ret="void", cont="0,1", swapop=1)
    t.op("move_ctor", "M& a, void* p", "new (p) M(std::move(a));", ret="void", cont=0, out=1, movector=1)
    t.op("move_assign", "M& a, M& b", "a = std::move(b);", ret="void", cont="0,1", moveassign=1)
    return t


def all_tus():
    r = []
    for kind in ("flat_map", "node_map", "flat_set", "node_set"):
        r.append(state_tu(kind))
    for kind in ("flat_map", "node_map", "flat_set", "node_set"):
        r += [aux_state_tu(kind), aux_state_tu(kind, 2)]
    for kind in ("set", "map", "multiset", "multimap"):
        r.append(state_tu(kind, True))
    for kind in ("flat_map", "node_map", "flat_set", "node_set"):
        r += [het_tu(kind, False), het_tu(kind, True)]
    for kind in ("b_set", "b_map", "b_multiset", "b_multimap"):
        r.append(het_tu(kind, False))
    for kind in ("flat_map", "node_map", "flat_set", "node_set"):
        for mx in ("W", "SM"):
            r.append(parallel_tu(kind, mx))
    r.append(parallel_tu("flat_map", "ABSL"))
    for kind in ("flat_map", "node_map", "flat_set", "node_set"):
        for al in ("WA", "STD"):
            r.append(raw_tu(kind, al))
    for kind in ("flat_map", "flat_set"):
        t = raw_tu(kind, "WA", extra_flags=["-DWIT_TMOVE"], suffix="_tm")
        t.groups = {"tmove"}
        r.append(t)
    r.append(pdump_tu("W"))
    r.append(pdump_tu("SM"))
    import witness2
    r += witness2.misc_tus(TU)
    for kind in ("set", "map"):
        t = witness2.btree_tu(kind, TU)
        t.name, t.flags, t.groups = t.name + "_tm", ["-DWIT_TMOVE"], {"tmove"}
        r.append(t)
    import witness3
    r += [witness3.guard_tu(TU), witness3.guard_tu(TU, True)]
    r += [witness3.rdump_tu(TU, "flat_map"), witness3.rdump_tu(TU, "flat_set"), witness3.rdump_tu(TU, "flat_map", "STD")]
    r += witness3.memo_tus(TU)
    r.append(witness3.soacol_tu(TU))
    return r


def tus_for(prop, claim, tier):
    g = set(claim.get("groups", ()))
    return [t for t in all_tus() if not g or "all" in g or (t.groups & g)]


if __name__ == "__main__":
    import sys, os
    out = sys.argv[1]
    os.makedirs(out, exist_ok=True)
    for t in all_tus():
        open(os.path.join(out, t.name + ".cpp"), "w").write(t.source())
        open(os.path.join(out, t.name + ".spec"), "w").write(t.spec())
