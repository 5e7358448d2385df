// one hash of the key selects submap, probe position and tag (C09): what is computed from a hash is brought into a
// normal form over the bits of that hash and compared between all the places that use it
#include "rules.h"

namespace {
using Bit = std::set<int>;          // exclusive or of atoms; atom 0 is the constant one
using Rep = std::vector<Bit>;       // least significant first

struct Forms {
    std::map<std::string, int>               atoms;
    std::map<int, bool>                      tainted;
    std::optional<Rep>                       mix; // the hash as the container computes it from the user's
    Forms() { atoms["one"] = 0; }
    Bit atom(const std::string& node, unsigned bit, bool t) {
        std::string k  = node + "." + std::to_string(bit);
        auto        it = atoms.emplace(k, (int)atoms.size()).first;
        if (t)
            tainted[it->second] = true;
        return { it->second };
    }
    Rep fresh(const std::string& node, unsigned w, bool t) {
        Rep r;
        for (unsigned i = 0; i < w; ++i)
            r.push_back(atom(node, i, t));
        return r;
    }
    bool isTainted(const Rep& r) const {
        for (auto& b : r)
            for (int a : b)
                if (tainted.count(a))
                    return true;
        return false;
    }
    static std::string key(const Rep& r) {
        std::string s;
        for (auto& b : r) {
            for (int a : b)
                s += std::to_string(a) + "^";
            s += ",";
        }
        return s;
    }
};

Bit xorBits(const Bit& a, const Bit& b) {
    Bit r = a;
    for (int x : b)
        if (!r.insert(x).second)
            r.erase(x);
    return r;
}

class Norm {
public:
    Forms&                     FO;
    const Function&            F;
    const Value*               harg; // the hash the caller supplies
    std::map<const Value*, Rep> memo;
    std::set<const Value*>     busy;
    std::map<const Value*, unsigned> num;
    Norm(Forms& f, const Function& fn, const Value* h)
        : FO(f)
        , F(fn)
        , harg(h) {
        unsigned n = 0;
        for (auto& I : instructions(F))
            num[&I] = ++n;
    }
    static unsigned width(const Value* v) { return v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 0; }
    Rep             opaque(const Value* v, bool t) { return FO.fresh(F.getName().str() + ":" + std::to_string(num.count(v) ? num[v] : 0) + (isa<Argument>(v) ? "a" + std::to_string(cast<Argument>(v)->getArgNo()) : ""), width(v), t); }
    const Rep&      rep(const Value* v) {
        auto it = memo.find(v);
        if (it != memo.end())
            return it->second;
        if (!busy.insert(v).second) { // round a loop
            static Rep none;
            none = opaque(v, false);
            return none;
        }
        Rep r = compute(v);
        busy.erase(v);
        if (FO.mix)
            for (auto& b : r)
                for (unsigned i = 0; i < FO.mix->size(); ++i)
                    if (b == (*FO.mix)[i])
                        b = FO.atom("M", i, true);
        return memo[v] = r;
    }
    Rep compute(const Value* v) {
        unsigned w = width(v);
        if (!w)
            return {};
        if (auto* k = dyn_cast<ConstantInt>(v)) {
            Rep r(w);
            for (unsigned i = 0; i < w; ++i)
                if (k->getValue()[i])
                    r[i] = { 0 };
            return r;
        }
        if (harg && v == harg)
            return FO.fresh("M", w, true);
        if (auto* CB = dyn_cast<CallBase>(v); CB && calleeName(CB) == "w_hash__R")
            return FO.fresh("H", w, true);
        auto* I = dyn_cast<Instruction>(v);
        if (!I)
            return opaque(v, false);
        if (auto* P = dyn_cast<PHINode>(I)) {
            std::optional<Rep> r;
            bool               same = true, t = false;
            for (auto& x : P->incoming_values()) {
                Rep q = rep(x.get());
                t     = t || FO.isTainted(q);
                same  = same && (!r || *r == q);
                r     = q;
            }
            if (same && r)
                return *r;
            return opaque(v, t);
        }
        if (auto* S = dyn_cast<SelectInst>(I)) {
            Rep a = rep(S->getTrueValue()), b = rep(S->getFalseValue());
            if (a == b)
                return a;
            return opaque(v, FO.isTainted(a) || FO.isTainted(b));
        }
        if (auto* II = dyn_cast<IntrinsicInst>(I); II && II->getIntrinsicID() == Intrinsic::expect)
            return rep(II->getArgOperand(0));
        if (auto* II = dyn_cast<IntrinsicInst>(I); II && (II->getIntrinsicID() == Intrinsic::fshl || II->getIntrinsicID() == Intrinsic::fshr)) {
            if (auto* k = dyn_cast<ConstantInt>(II->getArgOperand(2))) {
                Rep      a = rep(II->getArgOperand(0)), b = rep(II->getArgOperand(1));
                unsigned s = (unsigned)(k->getZExtValue() % w);
                Rep      c = b; // low half
                c.insert(c.end(), a.begin(), a.end());
                unsigned from = II->getIntrinsicID() == Intrinsic::fshl ? w - s : s;
                return Rep(c.begin() + from, c.begin() + from + w);
            }
        }
        if (isa<LoadInst>(I) || isa<CallBase>(I) || isa<CmpInst>(I) || I->getNumOperands() == 0 || !width(I->getOperand(0)))
            return opaque(v, false);
        Rep a = rep(I->getOperand(0));
        if (auto* C = dyn_cast<CastInst>(I)) {
            Rep r = a;
            r.resize(w);
            if (isa<SExtInst>(C))
                for (unsigned i = (unsigned)a.size(); i < w; ++i)
                    r[i] = a.back();
            return r;
        }
        if (I->getNumOperands() != 2)
            return opaque(v, FO.isTainted(a));
        Rep  b = rep(I->getOperand(1));
        auto* kb = dyn_cast<ConstantInt>(I->getOperand(1));
        Rep  r(w);
        switch (I->getOpcode()) {
        case Instruction::Xor:
            for (unsigned i = 0; i < w; ++i)
                r[i] = xorBits(a[i], b[i]);
            return r;
        case Instruction::Shl:
            if (kb && kb->getZExtValue() < w) {
                for (unsigned i = (unsigned)kb->getZExtValue(); i < w; ++i)
                    r[i] = a[i - kb->getZExtValue()];
                return r;
            }
            break;
        case Instruction::LShr:
        case Instruction::AShr:
            if (kb && kb->getZExtValue() < w) {
                for (unsigned i = 0; i < w; ++i)
                    r[i] = i + kb->getZExtValue() < w ? a[i + kb->getZExtValue()] : I->getOpcode() == Instruction::AShr ? a.back() : Bit();
                return r;
            }
            break;
        case Instruction::UDiv:
        case Instruction::URem:
        case Instruction::Mul:
            if (kb && kb->getValue().isPowerOf2()) {
                unsigned s = kb->getValue().logBase2();
                for (unsigned i = 0; i < w; ++i)
                    if (I->getOpcode() == Instruction::UDiv)
                        r[i] = i + s < w ? a[i + s] : Bit();
                    else if (I->getOpcode() == Instruction::URem)
                        r[i] = i < s ? a[i] : Bit();
                    else
                        r[i] = i >= s ? a[i - s] : Bit();
                return r;
            }
            break;
        case Instruction::And:
        case Instruction::Or: {
            bool ok = true;
            for (unsigned i = 0; i < w; ++i) {
                const Bit zero, one{ 0 };
                bool      isAnd = I->getOpcode() == Instruction::And;
                if (a[i] == b[i])
                    r[i] = a[i];
                else if (isAnd && (a[i] == zero || b[i] == zero))
                    r[i] = zero;
                else if (isAnd && a[i] == one)
                    r[i] = b[i];
                else if (isAnd && b[i] == one)
                    r[i] = a[i];
                else if (!isAnd && a[i] == zero)
                    r[i] = b[i];
                else if (!isAnd && b[i] == zero)
                    r[i] = a[i];
                else if (!isAnd && (a[i] == one || b[i] == one))
                    r[i] = one;
                else
                    ok = false;
            }
            if (ok)
                return r;
            break;
        }
        default:
            break;
        }
        bool t = FO.isTainted(a) || FO.isTainted(b);
        if (I->getOpcode() == Instruction::Add || I->getOpcode() == Instruction::Sub || I->getOpcode() == Instruction::Mul) {
            // a bit of the result depends on no higher bits: the form is the same in any width
            for (unsigned i = 0; i < w; ++i) {
                std::string x = Forms::key(Rep(a.begin(), a.begin() + i + 1)), y = Forms::key(Rep(b.begin(), b.begin() + i + 1));
                if (I->isCommutative() && y < x)
                    std::swap(x, y);
                r[i] = FO.atom(std::string(I->getOpcodeName()) + "(" + x + ";" + y + ")", i, t);
            }
            return r;
        }
        std::string ka = Forms::key(a), kk = Forms::key(b);
        if (I->isCommutative() && kk < ka)
            std::swap(ka, kk);
        return FO.fresh(std::string(I->getOpcodeName()) + "(" + ka + ";" + kk + ")", w, FO.isTainted(a) || FO.isTainted(b));
    }
    bool hashy(const Value* v) { return width(v) && FO.isTainted(rep(v)); }
};

// hash computations a value depends on
void leaves(const Value* v, const Value* harg, std::set<const Value*>& out, std::set<const Value*>& seen) {
    if (!seen.insert(v).second)
        return;
    if (v == harg) {
        out.insert(v);
        return;
    }
    auto* I = dyn_cast<Instruction>(v);
    if (!I)
        return;
    if (auto* CB = dyn_cast<CallBase>(I)) {
        if (calleeName(CB) == "w_hash__R")
            out.insert(v);
        else if (isa<IntrinsicInst>(CB))
            for (auto& a : CB->args())
                leaves(a.get(), harg, out, seen);
        return;
    }
    if (isa<LoadInst>(I)) // the group examined: where it was read from
        return;
    for (auto& o : I->operands())
        leaves(o.get(), harg, out, seen);
}

// two addresses computed alike
bool sameExpr(const Value* a, const Value* b, int depth = 0) {
    if (a == b)
        return true;
    auto *x = dyn_cast<Instruction>(a), *y = dyn_cast<Instruction>(b);
    if (!x || !y || depth > 8 || x->getOpcode() != y->getOpcode() || x->getNumOperands() != y->getNumOperands() || isa<PHINode>(x) || isa<CallBase>(x))
        return false;
    for (unsigned i = 0; i < x->getNumOperands(); ++i)
        if (!sameExpr(x->getOperand(i), y->getOperand(i), depth + 1))
            return false;
    return true;
}

// arguments, locals and calls an address was obtained from
void bases(const Value* p, std::set<const Value*>& out, std::set<const Value*>& seen) {
    p = p->stripInBoundsOffsets();
    if (!seen.insert(p).second)
        return;
    if (auto* P = dyn_cast<PHINode>(p))
        for (auto& x : P->incoming_values())
            bases(x.get(), out, seen);
    else if (auto* S = dyn_cast<SelectInst>(p))
        bases(S->getTrueValue(), out, seen), bases(S->getFalseValue(), out, seen);
    else if (auto* G = dyn_cast<GEPOperator>(p))
        bases(G->getPointerOperand(), out, seen);
    else if (auto* L = dyn_cast<LoadInst>(p))
        bases(L->getPointerOperand(), out, seen);
    else
        out.insert(p);
}

struct Use {
    std::string        kind;
    const Instruction* at;
    const Value*       val;
    Rep                rep;
};

// where probing starts: the position without its reduction to the table's size and without later steps
void starts(const Value* v, Norm& N, std::set<const Value*>& seen, std::vector<const Value*>& out) {
    if (!seen.insert(v).second || !N.hashy(v))
        return;
    if (auto* P = dyn_cast<PHINode>(v)) {
        for (auto& x : P->incoming_values())
            starts(x.get(), N, seen, out);
        return;
    }
    if (auto* B = dyn_cast<BinaryOperator>(v)) {
        bool h0 = N.hashy(B->getOperand(0)), h1 = N.hashy(B->getOperand(1));
        bool k  = isa<ConstantInt>(B->getOperand(0)) || isa<ConstantInt>(B->getOperand(1));
        if ((B->getOpcode() == Instruction::And && h0 != h1 && !k) || (B->getOpcode() == Instruction::Add && h0 != h1)) {
            starts(B->getOperand(h0 ? 0 : 1), N, seen, out);
            return;
        }
    }
    out.push_back(v);
}

std::vector<Use> uses(const Function& F, Norm& N, int64_t inner) {
    std::vector<Use> r;
    auto&            DL = F.getParent()->getDataLayout();
    for (auto& I : instructions(F)) {
        if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
            for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                if (it.getStructTypeOrNull())
                    continue;
                int64_t sz = (int64_t)DL.getTypeAllocSize(it.getIndexedType());
                if (inner && sz == inner && N.hashy(it.getOperand()))
                    r.push_back({ "submap", &I, it.getOperand(), N.rep(it.getOperand()) });
            }
        } else if (auto* L = dyn_cast<LoadInst>(&I)) {
            // a group of control bytes
            if (DL.getTypeStoreSize(L->getType()) != 16 && !L->getType()->isVectorTy())
                continue;
            if (auto* G = dyn_cast<GEPOperator>(L->getPointerOperand()); G && G->getNumOperands() == 2) {
                std::set<const Value*>    seen;
                std::vector<const Value*> st;
                starts(G->getOperand(1), N, seen, st);
                for (auto* s : st)
                    r.push_back({ "start", &I, s, N.rep(s) });
            }
        } else if (auto* S = dyn_cast<StoreInst>(&I)) {
            if (S->getValueOperand()->getType()->isIntegerTy(8) && N.hashy(S->getValueOperand()))
                r.push_back({ "tag", &I, S->getValueOperand(), N.rep(S->getValueOperand()) });
        } else if (auto* IE = dyn_cast<InsertElementInst>(&I)) {
            if (IE->getOperand(1)->getType()->isIntegerTy(8) && N.hashy(IE->getOperand(1)))
                r.push_back({ "match", &I, IE->getOperand(1), N.rep(IE->getOperand(1)) });
        }
    }
    return r;
}

struct Ref {
    const Module*                 M = nullptr;
    Forms                         FO;
    std::map<std::string, Rep>    want;
    bool                          ok = false;
};

Rep truncated(Rep r, size_t w) {
    r.resize(w);
    return r;
}

void run(ACtx& c) {
    static Ref ref;
    int64_t    n     = std::stoll(c.op.has("n") ? c.op.get("n") : "1");
    int64_t    inner = n > 1 && c.consts.count("w_sizeof_M") ? c.consts["w_sizeof_M"] / n : 0;
    if (ref.M != &c.M) {
        ref   = Ref();
        ref.M = &c.M;
        auto* H = c.M.getFunction("op_hash");
        auto* X = c.M.getFunction("op_find");
        if (H && X && !H->isDeclaration() && !X->isDeclaration()) {
            Norm N(ref.FO, *H, nullptr);
            std::set<std::string> seen;
            for (auto& B : *H)
                if (auto* R = dyn_cast<ReturnInst>(B.getTerminator()))
                    if (R->getReturnValue() && N.hashy(R->getReturnValue()))
                        ref.FO.mix = N.rep(R->getReturnValue());
            if (ref.FO.mix) {
                Norm NX(ref.FO, *X, nullptr);
                for (auto& u : uses(*X, NX, inner)) {
                    if (ref.FO.isTainted(u.rep))
                        ref.want.emplace(u.kind, u.rep);
                }
                ref.ok = ref.want.count("match") && ref.want.count("start") && (!inner || ref.want.count("submap"));
            }
        }
    }
    if (!ref.ok) {
        c.R.errors.push_back("cannot tell how the hash is used from hash() and find()");
        return;
    }
    const Value* harg = nullptr;
    if (c.op.has("harg"))
        harg = c.F.getArg((unsigned)std::stoi(c.op.get("harg")));
    Norm N(ref.FO, c.F, harg);
    auto us = uses(c.F, N, inner);
    if (us.empty() && !c.op.has("keyed"))
        return;
    c.R.count("C09.ops");
    auto bad = [&](const std::string& m, const Instruction* I) { c.R.violate("C09", c.op.name, m, whereOf(I)); };
    bool keyed = c.op.has("keyed");
    std::map<std::string, int> seen;
    auto cont = contArgs(c);
    for (auto& u : us) {
        ++seen[u.kind];
        c.R.count("C09.obligations");
        const Rep& w = u.kind == "tag" ? ref.want["match"] : ref.want[u.kind];
        // alternatives chosen by the path
        std::vector<const Value*> alt;
        std::set<const Value*>    done;
        std::function<void(const Value*)> expand = [&](const Value* v) {
            if (!done.insert(v).second)
                return;
            if (auto* P = dyn_cast<PHINode>(v); P && N.rep(v) != w) {
                for (auto& x : P->incoming_values())
                    expand(x.get());
            } else if (auto* S = dyn_cast<SelectInst>(v); S && N.rep(v) != w) {
                expand(S->getTrueValue());
                expand(S->getFalseValue());
            } else if (N.hashy(v))
                alt.push_back(v);
        };
        expand(u.val);
        for (auto* v : alt)
            if (N.rep(v) != w) {
                if (u.kind == "submap")
                    bad("the submap is not the one every other operation computes from the hash", u.at);
                else if (u.kind == "start")
                    bad("probing does not start where every other operation starts for that hash", u.at);
                else if (u.kind == "tag")
                    bad("the tag stored is not the one lookups compare with for that hash", u.at);
                else
                    bad("the tag compared with is not the one of every other operation for that hash", u.at);
            }
        // whose hash is it?
        std::set<const Value*> ls, s2;
        leaves(u.val, harg, ls, s2);
        for (auto* l : ls) {
            auto* CB = dyn_cast<CallBase>(l);
            if (!CB)
                continue;
            std::set<const Value*> bs, s3;
            bases(CB->getArgOperand(0), bs, s3);
            bool own = false;
            for (auto* x : cont)
                own = own || bs.count(x);
            if (keyed && !c.op.has("two") && own && bs.size() == 1 && (u.kind == "submap" || u.kind == "match"))
                bad("looks up by the hash of something else than the key it was given", u.at);
            if (u.kind == "tag" && own) {
                // an element being relocated: its own hash
                bool flat  = c.op.get("fam") == "flat";
                bool moved = false, any = !flat;
                for (auto& I : instructions(c.F))
                    if (auto* S = dyn_cast<StoreInst>(&I); S && !flat) { // the pointer to it is copied
                        moved = moved || sameExpr(S->getValueOperand(), CB->getArgOperand(0));
                    }
                for (auto& I : instructions(c.F))
                    if (auto* MC = dyn_cast<CallBase>(&I)) {
                        Elem e = elemOf(MC);
                        if (e.is && e.construct && e.key && e.src) {
                            any   = true;
                            moved = moved || sameExpr(e.src, CB->getArgOperand(0));
                        }
                    }
                if (any && !moved)
                    bad("the tag stored for a relocated element is not computed from its own hash", u.at);
            }
        }
        if (u.kind == "tag") {
            auto* S = cast<StoreInst>(u.at);
            std::set<const Value*> pl, s4;
            leaves(S->getPointerOperand(), harg, pl, s4);
            for (auto* p : pl) {
                bool ok = false;
                for (auto* l : ls)
                    ok = ok || p == l || (isa<CallBase>(p) && isa<CallBase>(l) && sameExpr(cast<CallBase>(p)->getArgOperand(0), cast<CallBase>(l)->getArgOperand(0))) || isa<Argument>(p) || isa<Argument>(l);
                if (!ok)
                    bad("the tag stored and the position it is stored at come from hashes of different keys", u.at);
            }
        }
    }
    if (keyed) {
        for (auto* k : { "submap", "match", "start" })
            if (!seen[k] && (inner || std::string(k) != "submap"))
                bad(std::string("never computes the ") + (k[0] == 's' && k[1] == 'u' ? "submap" : k[0] == 'm' ? "tag" : "probe position") + " from a hash of the key", &*c.F.getEntryBlock().getTerminator());
    }
}
RuleReg reg("hash", run);
} // namespace
