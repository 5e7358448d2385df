// Ownership and size of allocated blocks (C15), lifetimes of elements outside the vector when it throws (C21).
#include "rules.h"
#include "llvm/Analysis/LoopInfo.h"
#include <functional>

namespace {
std::string num(const Value* v) { return std::to_string((uintptr_t)v); }

// ---- evaluating a size expression as a function of one quantity
struct Eval {
    std::function<std::optional<uint64_t>(const Value*)> leaf;
    std::optional<uint64_t> at(const Value* v, int d = 0) const {
        if (auto* K = dyn_cast<ConstantInt>(v))
            return K->getBitWidth() <= 64 ? std::optional<uint64_t>(K->getZExtValue()) : std::nullopt;
        if (d > 60)
            return std::nullopt;
        if (auto x = leaf(v))
            return x;
        if (auto x = op(v, d))
            return x;
        return unk ? unk(v) : std::nullopt;
    }
    std::function<std::optional<uint64_t>(const Value*)> unk;
    std::optional<uint64_t> op(const Value* v, int d) const {
        auto* I = dyn_cast<Operator>(v);
        if (!I)
            return std::nullopt;
        auto w    = [&](const Value* x) { return x->getType()->isIntegerTy() ? x->getType()->getIntegerBitWidth() : 64u; };
        auto trim = [&](uint64_t x, unsigned b) { return b >= 64 ? x : x & ((1ull << b) - 1); };
        auto sx   = [&](uint64_t x, unsigned b) { return b >= 64 ? (int64_t)x : (int64_t)(x << (64 - b)) >> (64 - b); };
        unsigned b = w(v);
        if (I->getOpcode() == Instruction::Select) {
            auto c = at(I->getOperand(0), d + 1);
            if (!c)
                return std::nullopt;
            return at(I->getOperand(*c ? 1 : 2), d + 1);
        }
        if (auto* IC = dyn_cast<ICmpInst>(v)) {
            auto x = at(IC->getOperand(0), d + 1), y = at(IC->getOperand(1), d + 1);
            if (!x || !y)
                return std::nullopt;
            return ICmpInst::compare(APInt(64, *x), APInt(64, *y), IC->getPredicate());
        }
        if (I->getNumOperands() == 1) {
            auto x = at(I->getOperand(0), d + 1);
            if (!x)
                return std::nullopt;
            switch (I->getOpcode()) {
            case Instruction::ZExt: return *x;
            case Instruction::Trunc: return trim(*x, b);
            case Instruction::SExt: return trim((uint64_t)sx(*x, w(I->getOperand(0))), b);
            default: return std::nullopt;
            }
        }
        if (!isa<BinaryOperator>(v))
            return std::nullopt;
        auto x = at(I->getOperand(0), d + 1), y = at(I->getOperand(1), d + 1);
        if (!x || !y)
            return std::nullopt;
        switch (I->getOpcode()) {
        case Instruction::Add: return trim(*x + *y, b);
        case Instruction::Sub: return trim(*x - *y, b);
        case Instruction::Mul: return trim(*x * *y, b);
        case Instruction::And: return *x & *y;
        case Instruction::Or: return *x | *y;
        case Instruction::Xor: return *x ^ *y;
        case Instruction::Shl: return *y < b ? trim(*x << *y, b) : 0;
        case Instruction::LShr: return *y < b ? *x >> *y : 0;
        case Instruction::AShr: return *y < b ? trim((uint64_t)(sx(*x, b) >> *y), b) : 0;
        case Instruction::UDiv: return *y ? std::optional<uint64_t>(*x / *y) : std::nullopt;
        case Instruction::SDiv: return *y ? std::optional<uint64_t>(trim((uint64_t)(sx(*x, b) / sx(*y, b)), b)) : std::nullopt;
        case Instruction::URem: return *y ? std::optional<uint64_t>(*x % *y) : std::nullopt;
        default: return std::nullopt;
        }
    }
};

uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return (x ^ (x >> 31)) & 0xfffffff000ull;
}

// where the container keeps its block, and what the block's size is a function of
struct Layout {
    std::string kind; // hash, vector, btree
    int64_t     blockOff = -1, capOff = -1; // capOff: capacity word (hash), end-of-storage pointer (vector), offset in the node (btree)
    int64_t     stride = 0, sub = 0;
    const Value* refSize = nullptr; // size passed when the destructor releases the block
    const Value* refPtr  = nullptr;
};

// does function F release what its argument i points to?
bool releasesArg(const Function* F, unsigned i) {
    if (!F || F->isDeclaration() || i >= F->arg_size())
        return false;
    Env e(F->getParent()->getDataLayout());
    for (auto& I : instructions(*F))
        if (auto* CB = dyn_cast<CallBase>(&I)) {
            const Value* p;
            if (isFreeCall(CB, &p) && e.lin(p).base == F->getArg(i))
                return true;
        }
    return false;
}

Layout layoutOf(ACtx& c) {
    Layout      L;
    std::string fam = c.op.get("fam");
    L.kind          = fam == "flat" || fam == "node" ? "hash" : fam;
    if (c.op.num("n", 1) > 1)
        return L;
    Env   e(c.M.getDataLayout());
    auto* D = c.M.getFunction("op_dtor");
    if (D && !D->isDeclaration())
        for (auto& I : instructions(*D))
            if (auto* CB = dyn_cast<CallBase>(&I)) {
                const Value *p = nullptr, *n = nullptr;
                if (!isFreeCall(CB, &p, &n)) {
                    p = nullptr;
                    for (unsigned i = 0; i < CB->arg_size(); ++i)
                        if (releasesArg(CB->getCalledFunction(), i))
                            p = CB->getArgOperand(i);
                }
                if (!p)
                    continue;
                Lin l = e.lin(p);
                if (auto* LD = dyn_cast<LoadInst>(l.base)) {
                    Lin m = e.lin(LD->getPointerOperand());
                    if (m.base == D->getArg(0) && m.terms.empty()) {
                        L.blockOff = m.off;
                        L.refSize  = n;
                        L.refPtr   = p;
                    }
                }
            }
    auto* Q = c.M.getFunction("op_capacity");
    if (Q && !Q->isDeclaration() && L.kind != "btree")
        for (auto& I : instructions(*Q))
            if (auto* R = dyn_cast<ReturnInst>(&I)) {
                std::set<const Value*> ls;
                leavesOf(R->getReturnValue(), e, ls, true);
                for (auto& J : instructions(*Q))
                    if (auto* LD = dyn_cast<LoadInst>(&J)) {
                        Lin m = e.lin(LD->getPointerOperand());
                        if (m.base == Q->getArg(0) && m.terms.empty() && m.off != L.blockOff)
                            L.capOff = m.off;
                    }
            }
    return L;
}

// b-tree nodes: the size released must be a function of what the node records about itself, and the same
// function must give the size it was allocated with
struct NodeSizes {
    int64_t                                        off = -1; // where a node records how many values it has room for
    std::map<uint64_t, uint64_t>                   of;       // recorded value -> size (leaves)
    std::set<uint64_t>                             fixed;    // sizes allocated for nodes that record a constant
    bool                                           varying = false;
};
const LoadInst* soleByte(const Value* n, const Env& env) {
    const LoadInst* r = nullptr;
    std::vector<const Value*> w{ n };
    std::set<const Value*>    seen;
    while (!w.empty()) {
        auto* v = w.back();
        w.pop_back();
        if (!seen.insert(v).second)
            continue;
        auto* I = dyn_cast<Instruction>(v);
        if (!I)
            continue;
        if (auto* LD = dyn_cast<LoadInst>(I)) {
            if (r && r != LD)
                return nullptr;
            r = LD;
            continue;
        }
        if (isa<PHINode>(I) || isa<CallBase>(I))
            return nullptr;
        for (auto& o : I->operands())
            w.push_back(o.get());
    }
    return r;
}
std::optional<uint64_t> sizeAt(const Value* n, const Value* leaf, uint64_t X) {
    Eval e;
    e.leaf = [&](const Value* x) -> std::optional<uint64_t> { return x == leaf ? std::optional<uint64_t>(X) : std::nullopt; };
    return e.at(n);
}
class AllocRule : public Rule {
public:
    NodeSizes N;
    ACtx&                  C;
    std::set<const Value*> cont, outs;
    bool                   user; // the unit uses the witness allocator
    std::map<int, const CallBase*> site;
    Layout                         L;
    std::set<const Value*>         tracked; // loads of the block and capacity words that reach a release
    bool                           dtor, part;
    explicit AllocRule(ACtx& c)
        : C(c)
        , cont(argSet(c, "cont"))
        , outs(argSet(c, "out"))
        , user(c.consts.count("w_user_alloc"))
        , L(layoutOf(c)) {
        auto& o = c.op;
        dtor    = o.has("dtor");
        part    = L.blockOff >= 0 && !o.has("swapop") && !o.has("movector") && !o.has("defctor") && !o.has("ctorop");
        if (part)
            for (auto& I : instructions(c.F))
                if (auto* CB = dyn_cast<CallBase>(&I)) {
                    const Value *p = nullptr, *n = nullptr;
                    if (isFreeCall(CB, &p, &n)) {
                        slice(p, 0);
                        if (n)
                            slice(n, 0);
                    }
                }
    }
    bool unwinds(const CallBase* I, FlowCtx& c) override {
        if (L.kind != "hash" || calleeName(I) != "w_hash__R" || C.op.has("copyop"))
            return true;
        // hashing the elements already in the table again is assumed not to fail
        Roots r;
        rootsOf(I->getArgOperand(0), c.env, r, true);
        for (auto* b : cont)
            if (r.deep.count(b))
                return false;
        return true;
    }
    void slice(const Value* v, int d) {
        if (isa<LoadInst>(v)) {
            tracked.insert(v);
            return;
        }
        auto* I = dyn_cast<Instruction>(v);
        if (!I || d > 20 || isa<CallBase>(I) || !slSeen.insert(v).second)
            return;
        for (auto& o : I->operands())
            slice(o.get(), d + 1);
    }
    std::set<const Value*> slSeen;
    int  kB(const Value* b) { return intern("al.blk" + num(b)); }
    int  kEp(int64_t off, const Value* b) { return intern("al.ep" + num(b) + ":" + std::to_string(off)); }
    int  kLd(const Value* l) { return intern("al.ld" + num(l)); }
    bool cellOf(const Value* p, const Env& env, const Value** b, int64_t* off) {
        Lin l = env.lin(p);
        if (!cont.count(l.base) || !l.terms.empty())
            return false;
        *b   = l.base;
        *off = l.off;
        return true;
    }
    // the container is known to own no block
    bool knownEmpty(const Value* cb, const Env& env) {
        for (auto& f : env.f) {
            auto* LD = dyn_cast<LoadInst>(f.first);
            const Value* b;
            int64_t      off;
            if (auto* IC = dyn_cast<ICmpInst>(f.first); IC && IC->isEquality() && f.second.k == AV::Const)
                if ((f.second.c != 0) == (IC->getPredicate() == CmpInst::ICMP_EQ))
                    for (int i = 0; i < 2; ++i) { // the word equals the address of a static sentinel
                        auto* W = dyn_cast<LoadInst>(IC->getOperand(i));
                        if (W && isa<GlobalVariable>(IC->getOperand(1 - i)->stripPointerCasts()) && cellOf(W->getPointerOperand(), env, &b, &off) && b == cb && off == L.blockOff)
                            return true;
                    }
            if (!LD || !cellOf(LD->getPointerOperand(), env, &b, &off) || b != cb)
                continue;
            if (off == L.capOff && f.second.k == AV::Const && f.second.c == 0)
                return true;
            if (off == L.blockOff) {
                if (f.second.k == AV::Const && f.second.c == 0)
                    return true;
                const Value* r = env.resolve(LD);
                if (isa<ConstantPointerNull>(r) || isa<GlobalVariable>(r->stripPointerCasts()))
                    return true;
            }
        }
        return false;
    }
    void onEdge(const BasicBlock*, const BasicBlock*, FlowCtx& c) override {
        if (!part)
            return;
        for (auto* b : cont)
            if (int s = c.ps.get(kB(b)); s == 1 || (dtor && s == 0))
                if (knownEmpty(b, c.env))
                    c.ps.set(kB(b), 2);
    }
    // block word of container the pointer was loaded from
    const Value* blockLoad(const Value* p, const Env& env, const LoadInst** ld = nullptr) {
        auto* LD = dyn_cast<LoadInst>(env.lin(p).base);
        const Value* b;
        int64_t      off;
        if (LD && cellOf(LD->getPointerOperand(), env, &b, &off) && off == L.blockOff) {
            if (ld)
                *ld = LD;
            return b;
        }
        return nullptr;
    }
    void released(const Value* p, FlowCtx& c) {
        if (!part)
            return;
        if (auto* b = blockLoad(p, c.env)) {
            c.ps.set(kB(b), 2);
            return;
        }
        for (auto& f : c.env.f) // a pointer compared equal to the block word
            if (auto* IC = dyn_cast<ICmpInst>(f.first); IC && IC->isEquality() && f.second.k == AV::Const && (f.second.c != 0) == (IC->getPredicate() == CmpInst::ICMP_EQ))
                for (int i = 0; i < 2; ++i)
                    if (IC->getOperand(i) == p || c.env.resolve(IC->getOperand(i)) == c.env.resolve(p))
                        if (auto* b = blockLoad(IC->getOperand(1 - i), c.env)) {
                            c.ps.set(kB(b), 2);
                            return;
                        }
        Roots r;
        rootsOf(p, c.env, r, true);
        bool local = false;
        for (auto* x : r.direct)
            local |= isa<AllocaInst>(x);
        for (auto* x : r.deep)
            local |= isa<AllocaInst>(x);
        if (local)
            for (auto* b : cont)
                if (r.deep.count(b))
                    c.ps.set(kB(b), 2);
    }
    // words of the container known to hold the same pointer have the same canonical offset
    int64_t canon(int64_t o, const Env& env) {
        for (int n = 0; n < 3; ++n)
            for (auto& f : env.f)
                if (auto* IC = dyn_cast<ICmpInst>(f.first); IC && IC->isEquality() && f.second.k == AV::Const && (f.second.c != 0) == (IC->getPredicate() == CmpInst::ICMP_EQ)) {
                    auto *A = dyn_cast<LoadInst>(IC->getOperand(0)), *B = dyn_cast<LoadInst>(IC->getOperand(1));
                    const Value *b1, *b2;
                    int64_t      o1, o2;
                    if (A && B && cellOf(A->getPointerOperand(), env, &b1, &o1) && cellOf(B->getPointerOperand(), env, &b2, &o2) && b1 == b2 && (o1 == o || o2 == o))
                        o = std::min(o1, o2);
                }
        return o;
    }
    // value of an expression with every unknown quantity replaced by an arbitrary number
    std::vector<std::pair<const Value*, uint64_t>> unk;
    std::optional<uint64_t> arb(const Value* v, const Env& env, int round) {
        Eval e;
        e.leaf = [&](const Value* x) -> std::optional<uint64_t> {
            if (auto k = env.evalInt(x))
                return (uint64_t)*k;
            if (auto* P = dyn_cast<PtrToIntOperator>(x))
                return arbPtr(P->getPointerOperand(), env, round);
            const Value* r = env.resolve(x);
            if (r != x)
                return arb(r, env, round);
            return std::nullopt;
        };
        e.unk = [&](const Value* x) -> std::optional<uint64_t> {
            const Value* b;
            int64_t      off;
            if (auto* LD = dyn_cast<LoadInst>(x))
                if (cellOf(LD->getPointerOperand(), env, &b, &off))
                    return mix((uint64_t)canon(off, env) * 977 + round * 31 + 5);
            for (auto& u : unk)
                if (u.first == x || sameVal(u.first, x, env))
                    return mix(u.second * 131 + round);
            unk.push_back({ x, 1000 + unk.size() });
            return mix((999 + unk.size()) * 131 + round);
        };
        return e.at(v);
    }
    std::optional<uint64_t> arbPtr(const Value* p, const Env& env, int round) {
        Lin      l = env.lin(p);
        uint64_t x = (uint64_t)l.off;
        if (auto* LD = dyn_cast<LoadInst>(l.base)) {
            const Value* b;
            int64_t      off;
            if (cellOf(LD->getPointerOperand(), env, &b, &off))
                x += mix((uint64_t)canon(off, env) * 977 + round * 31 + 5);
            else {
                auto k = arb(l.base, env, round);
                x += *k;
            }
        } else {
            bool f = false;
            for (auto& u : unk)
                if (u.first == l.base) {
                    x += mix(u.second * 131 + round);
                    f = true;
                }
            if (!f) {
                unk.push_back({ l.base, 1000 + unk.size() });
                x += mix((999 + unk.size()) * 131 + round);
            }
        }
        for (auto& t : l.terms) {
            auto k = arb(t.first, env, round);
            if (!k)
                return std::nullopt;
            x += (uint64_t)t.second * *k;
        }
        return x;
    }
    // size of the hash table's block as the destructor computes it
    std::optional<uint64_t> ref(uint64_t X) {
        if (!L.refSize)
            return std::nullopt;
        Env  env(C.M.getDataLayout());
        Eval e;
        e.leaf = [&](const Value* x) -> std::optional<uint64_t> {
            if (auto* LD = dyn_cast<LoadInst>(x)) {
                Lin m = env.lin(LD->getPointerOperand());
                if (isa<Argument>(m.base) && m.terms.empty() && m.off == L.capOff)
                    return X;
            }
            if (isa<PHINode>(x)) // a counter that has reached the capacity
                for (auto* U : x->users())
                    if (auto* IC = dyn_cast<ICmpInst>(U); IC && IC->isEquality())
                        for (auto& o : IC->operands())
                            if (auto* LD = dyn_cast<LoadInst>(o.get())) {
                                Lin m = env.lin(LD->getPointerOperand());
                                if (isa<Argument>(m.base) && m.terms.empty() && m.off == L.capOff)
                                    return X;
                            }
            return std::nullopt;
        };
        return e.at(L.refSize);
    }
    void checkRelease(const CallBase* I, const Value* p, const Value* n, FlowCtx& c) {
        const LoadInst* ld = nullptr;
        const Value*    cb = part ? blockLoad(p, c.env, &ld) : nullptr;
        Lin             l  = c.env.lin(p);
        if (!n)
            return;
        if (isAllocCall(l.base)) {
            obl("C15");
            unk.clear();
            bool same = true;
            for (int r = 0; r < 4; ++r) {
                auto x = arb(n, c.env, r), y = arb(cast<CallBase>(l.base)->getArgOperand(0), c.env, r);
                same &= !x || !y || *x == *y;
            }
            if (!same)
                bad("C15", "releases a block with another size than it was allocated with", I);
            return;
        }
        if (L.kind == "btree" && N.off >= 0 && !N.fixed.empty()) {
            // what the path knows about the kind of the node
            auto same = [&](const Value* q) {
                if (q == l.base || c.env.resolve(q) == c.env.resolve(l.base))
                    return true;
                const Value *x = blockLoad(q, c.env), *y = blockLoad(p, c.env);
                if (x && x == y)
                    return true;
                for (auto& f : c.env.f)
                    if (auto* IC = dyn_cast<ICmpInst>(f.first); IC && IC->isEquality() && f.second.k == AV::Const && (f.second.c != 0) == (IC->getPredicate() == CmpInst::ICMP_EQ))
                        for (int i = 0; i < 2; ++i)
                            if (IC->getOperand(i) == q && (IC->getOperand(1 - i) == l.base || (y && blockLoad(IC->getOperand(1 - i), c.env) == y)))
                                return true;
                return false;
            };
            bool inner = false, leaf = false;
            for (auto& f : c.env.f) {
                auto* LD = dyn_cast<LoadInst>(f.first);
                if (auto* IC = dyn_cast<ICmpInst>(f.first); IC && IC->isEquality() && f.second.k == AV::Const && (f.second.c != 0) != (IC->getPredicate() == CmpInst::ICMP_EQ))
                    if (auto* Z = dyn_cast<ConstantInt>(IC->getOperand(1)); Z && Z->isZero())
                        if (auto* RD = dyn_cast<LoadInst>(IC->getOperand(0))) {
                            Lin a = c.env.lin(RD->getPointerOperand());
                            leaf |= a.terms.empty() && a.off - l.off == N.off && same(a.base);
                        }
                if (!LD || !LD->getType()->isIntegerTy(8) || f.second.k != AV::Const || f.second.c != 0)
                    continue;
                Lin a = c.env.lin(LD->getPointerOperand());
                inner |= a.terms.empty() && a.off - l.off == N.off && same(a.base);
            }
            if (inner && !leaf && !isa<ConstantInt>(n)) {
                obl("C15");
                if (auto* LD = soleByte(n, c.env))
                    if (auto x = sizeAt(n, LD, 0); x && !N.fixed.count(*x))
                        bad("C15", "releases an internal node with another size than it was allocated with", I);
            }
        }
        if (!cb)
            return;
        obl("C15");
        if (L.kind == "hash" && L.capOff >= 0) {
            const Value* other = nullptr;
            for (int k = 1; k < 40; ++k) {
                uint64_t X = (1ull << k) - 1;
                Eval     e;
                e.leaf = [&](const Value* x) -> std::optional<uint64_t> {
                    const Value* r = c.env.resolve(x);
                    if (auto* LD = dyn_cast<LoadInst>(r)) {
                        const Value* b;
                        int64_t      off;
                        if (cellOf(LD->getPointerOperand(), c.env, &b, &off)) {
                            if (off == L.capOff && b == cb)
                                return X;
                            other = LD;
                        }
                    }
                    if (r != x)
                        if (auto* K = dyn_cast<ConstantInt>(r))
                            return K->getZExtValue();
                    for (auto& f : c.env.f)
                        if (auto* IC = dyn_cast<ICmpInst>(f.first); IC && IC->isEquality() && f.second.k == AV::Const && (f.second.c != 0) == (IC->getPredicate() == CmpInst::ICMP_EQ))
                            for (int i = 0; i < 2; ++i)
                                if (auto* LD = dyn_cast<LoadInst>(IC->getOperand(1 - i)); LD && IC->getOperand(i) == x) {
                                    const Value* b;
                                    int64_t      off;
                                    if (cellOf(LD->getPointerOperand(), c.env, &b, &off) && off == L.capOff && b == cb)
                                        return X;
                                }
                    return std::nullopt;
                };
                auto x = e.at(n), y = ref(X);
                if (x && y && *x != *y) {
                    bad("C15", "releases the table with another size than the destructor does for the same capacity", I);
                    break;
                }
                if (!x && other) {
                    bad("C15", "releases the table with a size that is not computed from its capacity", I);
                    break;
                }
            }
        }
        if (L.kind == "vector" && L.capOff >= 0) {
            unk.clear();
            bool same = true;
            for (int r = 0; r < 4; ++r) {
                auto x = arb(n, c.env, r);
                auto y = mix((uint64_t)canon(L.capOff, c.env) * 977 + r * 31 + 5) - mix((uint64_t)canon(L.blockOff, c.env) * 977 + r * 31 + 5);
                same &= !x || *x == y;
            }
            if (!same)
                bad("C15", "releases the storage with a size other than its capacity", I);
        }
        // block and capacity must have been read between the same updates
        if (L.capOff >= 0) {
            int e1 = c.ps.get(kLd(ld));
            std::set<const Value*> ls;
            leavesOf(n, c.env, ls, false);
            for (auto* x : ls) {
                auto* LD = dyn_cast<LoadInst>(x);
                const Value* b;
                int64_t      off;
                if (LD && cellOf(LD->getPointerOperand(), c.env, &b, &off) && b == cb && off == L.capOff) {
                    int e2 = c.ps.get(kLd(LD));
                    obl("C15");
                    if (e1 && e2 && (e1 == 1) != (e2 == 1))
                        bad("C15", "releases a block with the capacity of another one", I);
                }
            }
        }
    }
    void bad(const char* p, const std::string& m, const Instruction* I) { C.R.violate(p, C.op.name, m, whereOf(I)); }
    void obl(const char* p) { C.R.count(std::string(p) + ".obligations"); }
    int  key(const Value* a) {
        int k = intern("al" + num(a));
        site[k] = cast<CallBase>(a);
        return k;
    }
    // allocation sites whose block the pointer may denote
    void sitesOf(const Value* v, const Env& env, std::set<const Value*>& s) {
        Roots r;
        rootsOf(v, env, r, true);
        for (auto* x : r.direct)
            if (isAllocCall(x))
                s.insert(x);
    }
    bool localMem(const Value* p, const Env& env) {
        Roots r;
        rootsOf(p, env, r, true);
        if (r.unknown || r.direct.empty() || !r.deep.empty())
            return false;
        for (auto* x : r.direct)
            if (!isa<AllocaInst>(x))
                return false;
        return true;
    }
    void own(const Value* v, FlowCtx& c) {
        std::set<const Value*> s;
        sitesOf(v, c.env, s);
        for (auto* a : s)
            if (int k = key(a); c.ps.get(k) == 1)
                c.ps.set(k, 2);
    }
    static bool within(const Value* v, const Value* e, int d = 0) {
        if (v == e)
            return true;
        auto* I = dyn_cast<Instruction>(e);
        if (!I || d > 14 || isa<PHINode>(I) || isa<LoadInst>(I) || isa<CallBase>(I))
            return false;
        for (auto& o : I->operands())
            if (within(v, o.get(), d + 1))
                return true;
        return false;
    }
    std::optional<bool> evalEq(const Value* a, const Value* b, const Env& env, const PS& ps) override {
        for (int i = 0; i < 2; ++i, std::swap(a, b))
            if (a->getType()->isIntegerTy()) { // a table is never allocated for no slots
                if (auto k = env.evalInt(b); k && *k == 0) {
                    const Value* v = env.resolve(a);
                    if (!isa<Constant>(v))
                        for (auto& kv : ps.m)
                            if (auto it = site.find(kv.first); it != site.end() && kv.second && within(v, it->second->getArgOperand(0)))
                                return false;
                }
            } else
            if (isa<ConstantPointerNull>(b) && isAllocCall(env.lin(a).base))
                return false;
        return std::nullopt;
    }
    void onInst(const Instruction* I, FlowCtx& c) override {
        if (tracked.count(I)) {
            const Value* b;
            int64_t      off;
            if (cellOf(cast<LoadInst>(I)->getPointerOperand(), c.env, &b, &off) && (off == L.blockOff || off == L.capOff))
                c.ps.set(kLd(I), 1 + c.ps.get(kEp(off, b)));
            return;
        }
        if (auto* S = dyn_cast<StoreInst>(I)) {
            const Value* v   = S->getValueOperand();
            bool         loc = localMem(S->getPointerOperand(), c.env);
            if (v->getType()->isPointerTy() && !loc)
                own(v, c);
            if (part) {
                const Value* b;
                int64_t      off;
                if (cellOf(S->getPointerOperand(), c.env, &b, &off)) {
                    if (off == L.blockOff || off == L.capOff)
                        c.ps.set(kEp(off, b), 1);
                    if (off == L.blockOff && blockLoad(v, c.env) != b) {
                        obl("C15");
                        if (c.ps.get(kB(b)) == 0)
                            c.ps.set(kB(b), knownEmpty(b, c.env) ? 2 : 1);
                    }
                    if (L.kind == "vector" && off == L.capOff) {
                        Lin l = c.env.lin(v);
                        if (isAllocCall(l.base)) {
                            obl("C15");
                            unk.clear();
                            bool same = true;
                            for (int r = 0; r < 4; ++r) {
                                uint64_t x = (uint64_t)l.off;
                                bool     ok = true;
                                for (auto& t : l.terms) {
                                    auto k = arb(t.first, c.env, r);
                                    ok &= !!k;
                                    x += k ? (uint64_t)t.second * *k : 0;
                                }
                                auto y = arb(cast<CallBase>(l.base)->getArgOperand(0), c.env, r);
                                same &= !ok || !y || x == *y;
                            }
                            if (!same)
                                bad("C15", "records another capacity than the size the block was allocated with", I);
                        }
                    }
                }
                if (v->getType()->isPointerTy() && !loc)
                    if (auto* b2 = blockLoad(v, c.env))
                        if (!(cellOf(S->getPointerOperand(), c.env, &b, &off) && b == b2))
                            c.ps.set(kB(b2), 2); // handed over
            }
            return;
        }
        if (auto* MT = dyn_cast<AnyMemTransferInst>(I)) {
            if (!localMem(MT->getRawDest(), c.env)) {
                Lin l = c.env.lin(MT->getRawSource());
                if (auto* A = dyn_cast<AllocaInst>(l.base)) {
                    LoadInst* fake = nullptr;
                    (void)fake;
                    for (auto& kv : std::map<int, int>(c.ps.m))
                        if (site.count(kv.first) && kv.second == 1 && parked(site[kv.first], A))
                            c.ps.set(kv.first, 2);
                }
            }
            return;
        }
        auto* CB = dyn_cast<CallBase>(I);
        if (!CB)
            return;
        const Value* p;
        if (isAllocCall(CB)) {
            obl("C15");
            std::string n = calleeName(CB);
            if (user && n != "w_alloc___")
                bad("C15", "obtains memory from the global heap although the container has its own allocator", I);
            int k = key(CB);
            if (c.ps.get(k) == 1)
                bad("C15", "drops a block: allocates again before the earlier block is owned by anything", I);
            c.ps.set(k, 1);
            return;
        }
        if (part && !isFreeCall(CB))
            for (unsigned i = 0; i < CB->arg_size(); ++i)
                if (CB->getArgOperand(i)->getType()->isPointerTy() && releasesArg(CB->getCalledFunction(), i))
                    released(CB->getArgOperand(i), c);
        const Value* n;
        if (isFreeCall(CB, &p, &n)) {
            obl("C15");
            checkRelease(CB, p, n, c);
            released(p, c);
            std::string n = calleeName(CB);
            if (user && n != "w_free__F_")
                bad("C15", "releases memory to the global heap although the container has its own allocator", I);
            Lin l = c.env.lin(p);
            if (isAllocCall(l.base))
                c.ps.set(key(l.base), 0);
            else {
                std::set<const Value*> s;
                sitesOf(p, c.env, s);
                for (auto* a : s)
                    c.ps.set(key(a), 0);
            }
            return;
        }
    }
    bool parked(const Value* a, const AllocaInst* A) {
        std::vector<const Value*> w{ A };
        std::set<const Value*>    seen;
        while (!w.empty()) {
            const Value* p = w.back();
            w.pop_back();
            if (!seen.insert(p).second)
                continue;
            for (auto* U : p->users()) {
                if (isa<GetElementPtrInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U))
                    w.push_back(U);
                else if (auto* S = dyn_cast<StoreInst>(U); S && S->getPointerOperand() == p && S->getValueOperand()->stripInBoundsOffsets() == a)
                    return true;
            }
        }
        return false;
    }
    void exit(const Instruction* I, FlowCtx& c, bool thrown) {
        obl("C15");
        if (part)
            for (auto* b : cont) {
                int s = c.ps.get(kB(b));
                if (s == 1)
                    bad("C15", std::string("the container's block is dropped without being released when the operation ") + (thrown ? "throws" : "returns"), I);
                if (dtor && s == 0 && !thrown)
                    bad("C15", "the destructor does not release the container's block", I);
            }
        for (auto& kv : c.ps.m)
            if (site.count(kv.first) && kv.second == 1)
                bad("C15", std::string("a block is lost when the operation ") + (thrown ? "throws" : "returns") + "; allocated at " + whereOf(site[kv.first]).substr(0, 120), I);
    }
    void onRet(const ReturnInst* R, FlowCtx& c) override {
        if (auto* v = R->getReturnValue()) {
            if (v->getType()->isPointerTy())
                own(v, c);
            for (auto* x = v; auto* IV = dyn_cast<InsertValueInst>(x); x = IV->getAggregateOperand())
                if (IV->getInsertedValueOperand()->getType()->isPointerTy())
                    own(IV->getInsertedValueOperand(), c);
        }
        exit(R, c, false);
    }
    void onThrowExit(const Instruction* I, FlowCtx& c) override { exit(I, c, true); }
};

// every table allocation must ask for what the destructor gives back for the capacity stored with it
void hashSizes(ACtx& c, AllocRule& r) {
    if (r.L.kind != "hash" || r.L.capOff < 0 || !r.L.refSize)
        return;
    Env env(c.M.getDataLayout());
    std::set<const Value*> caps; // values stored as the capacity of some table
    for (auto& I : instructions(c.F))
        if (auto* S = dyn_cast<StoreInst>(&I); S && S->getValueOperand()->getType()->isIntegerTy(64)) {
            Lin l = env.lin(S->getPointerOperand());
            if ((isa<Argument>(l.base) || isa<AllocaInst>(l.base)) && l.terms.empty() && l.off == r.L.capOff)
                caps.insert(S->getValueOperand());
        }
    std::set<uint64_t> nodeFrees;
    for (auto& F : c.M)
        for (auto& I : instructions(F))
            if (auto* CB = dyn_cast<CallBase>(&I)) {
                const Value *p, *n = nullptr;
                if (isFreeCall(CB, &p, &n) && n)
                    if (auto* K = dyn_cast<ConstantInt>(n))
                        nodeFrees.insert(K->getZExtValue());
            }
    for (auto& I : instructions(c.F)) {
        auto* CB = dyn_cast<CallBase>(&I);
        if (!CB || !isAllocCall(CB))
            continue;
        const Value* S = CB->getArgOperand(0);
        r.obl("C15");
        if (auto* K = dyn_cast<ConstantInt>(S)) {
            bool ok = nodeFrees.count(K->getZExtValue());
            for (auto* v : caps)
                if (auto* KV = dyn_cast<ConstantInt>(v); KV && KV->getZExtValue())
                    if (auto x = r.ref(KV->getZExtValue()))
                        ok |= *x == K->getZExtValue();
            if (!ok && !caps.empty())
                r.bad("C15", "allocates a block with a size no release uses", CB);
            continue;
        }
        bool cand = false, ok = false;
        for (auto* v : caps) {
            if (isa<Constant>(v) || !AllocRule::within(v, S))
                continue;
            cand      = true;
            bool same = true;
            for (int k = 1; k < 40 && same; ++k) {
                uint64_t X = (1ull << k) - 1;
                Eval     e;
                e.leaf = [&](const Value* x) -> std::optional<uint64_t> { return x == v ? std::optional<uint64_t>(X) : std::nullopt; };
                auto x = e.at(S), y = r.ref(X);
                same   = !x || !y || *x == *y;
            }
            ok |= same;
        }
        if (cand && !ok)
            r.bad("C15", "allocates the table with another size than it is released with", CB);
    }
}

void btreeSizes(ACtx& c, AllocRule& r) {
    if (r.L.kind != "btree")
        return;
    Env        env(c.M.getDataLayout());
    NodeSizes& N = r.N;
    for (auto& F : c.M)
        for (auto& I : instructions(F))
            if (auto* CB = dyn_cast<CallBase>(&I)) {
                const Value *p = nullptr, *n = nullptr;
                if (isAllocCall(CB))
                    N.varying |= !isa<ConstantInt>(CB->getArgOperand(0));
                else if (isFreeCall(CB, &p, &n) && n && !isa<ConstantInt>(n))
                    if (auto* LD = soleByte(n, env)) {
                        Lin a = env.lin(LD->getPointerOperand()), b = env.lin(p);
                        if (a.terms.empty() && b.terms.empty() && a.base == b.base && N.off < 0) {
                            N.off = a.off - b.off;
                            for (unsigned X = 1; X < 256; ++X)
                                if (auto s = sizeAt(n, LD, X))
                                    N.of[X] = *s;
                        }
                    }
            }
    if (N.off < 0) {
        if (N.varying)
            for (auto& I : instructions(c.F))
                if (auto* CB = dyn_cast<CallBase>(&I)) {
                    const Value *p = nullptr, *n = nullptr;
                    if (isFreeCall(CB, &p, &n) && n && isa<ConstantInt>(n))
                        r.bad("C15", "nodes of different sizes are all released with a fixed size", CB);
                }
        return;
    }
    // what allocations record
    auto recorded = [&](const CallBase* CB) -> const Value* {
        for (auto& I : instructions(*CB->getFunction()))
            if (auto* S = dyn_cast<StoreInst>(&I); S && S->getValueOperand()->getType()->isIntegerTy(8)) {
                Lin l = env.lin(S->getPointerOperand());
                if (l.base == CB && l.terms.empty() && l.off == N.off)
                    return S->getValueOperand();
            }
        return nullptr;
    };
    for (auto& F : c.M)
        for (auto& I : instructions(F))
            if (auto* CB = dyn_cast<CallBase>(&I); CB && isAllocCall(CB))
                if (auto* K = dyn_cast<ConstantInt>(CB->getArgOperand(0)))
                    if (auto* m = dyn_cast_or_null<ConstantInt>(recorded(CB)); m && m->isZero())
                        N.fixed.insert(K->getZExtValue());
    auto scan = [&](const Function& F) {
        for (auto& I : instructions(F)) {
            auto* CB = dyn_cast<CallBase>(&I);
            if (!CB)
                continue;
            const Value *p = nullptr, *n = nullptr;
            if (isAllocCall(CB)) {
                const Value* m = recorded(CB);
                const Value* s = CB->getArgOperand(0);
                if (!m)
                    continue;
                r.obl("C15");
                auto* KM = dyn_cast<ConstantInt>(m);
                auto* KS = dyn_cast<ConstantInt>(s);
                if (KM && KS && !KM->isZero()) {
                    if (N.of.count(KM->getZExtValue()) && N.of[KM->getZExtValue()] != KS->getZExtValue())
                        r.bad("C15", "allocates a node with another size than a node of its kind is released with", CB);
                } else if (!KM && !KS) {
                    // both computed: compare over every value the node can record
                    std::set<const Value*>    ls;
                    std::vector<const Value*> w{ m };
                    while (!w.empty()) {
                        auto* v = w.back();
                        w.pop_back();
                        auto* J = dyn_cast<Instruction>(v);
                        if (isa<Argument>(v) || (J && (isa<LoadInst>(J) || isa<PHINode>(J) || isa<CallBase>(J))))
                            ls.insert(v);
                        else if (J)
                            for (auto& o : J->operands())
                                w.push_back(o.get());
                    }
                    if (ls.size() == 1)
                        for (unsigned X = 1; X < 256; ++X) {
                            auto k = sizeAt(m, *ls.begin(), X), x = sizeAt(s, *ls.begin(), X);
                            if (k && x && N.of.count(*k & 255) && N.of[*k & 255] != *x) {
                                r.bad("C15", "allocates a node with another size than a node of its kind is released with", CB);
                                break;
                            }
                        }
                } else if (KM && !KM->isZero())
                    r.bad("C15", "allocates nodes of varying size that all record the same room", CB);
                continue;
            }
            if (!isFreeCall(CB, &p, &n) || !n)
                continue;
            r.obl("C15");
            Lin b = env.lin(p);
            if (isAllocCall(b.base))
                continue;
            if (auto* K = dyn_cast<ConstantInt>(n)) {
                if (!N.fixed.empty() && !N.fixed.count(K->getZExtValue()))
                    r.bad("C15", "releases a node with a fixed size that is not the size its kind is allocated with", CB);
                continue;
            }
            if (auto* LD = soleByte(n, env)) {
                Lin a = env.lin(LD->getPointerOperand());
                if (!a.terms.empty() || a.base != b.base || a.off - b.off != N.off)
                    continue;
                for (auto& kv : N.of)
                    if (auto x = sizeAt(n, LD, kv.first); x && *x != kv.second) {
                        r.bad("C15", "releases a node with another size than other operations do for the same recorded room", CB);
                        break;
                    }
            }
        }
    };
    scan(c.F);
    if (c.op.name == "op_dtor")
        for (auto& F : c.M)
            if (!F.isDeclaration() && !F.getName().starts_with("op_"))
                scan(F);
}

void run(ACtx& c) {
    AllocRule r(c);
    hashSizes(c, r);
    btreeSizes(c, r);
    FlowStats st;
    if (!runFlow(c.F, r, st, 400000))
        c.R.errors.push_back("state budget exceeded in " + c.op.name);
    c.R.count("alloc.ops");
}
RuleReg reg("alloc", run);
} // namespace
