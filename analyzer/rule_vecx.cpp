// vector: at every exit, normal or exceptional, the elements alive are exactly those between begin and end (C21).
// The fields of the vector are turned into SSA values; element lifetimes are intervals with symbolic linear bounds.
#include "rules.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"

namespace {
const int64_t ONE = 1 << 20; // fixed point: element sizes divide it

std::map<const Value*, unsigned> numbers; // position in the function: results do not depend on addresses
struct ByNumber {
    static unsigned num(const Value* v) {
        auto i = numbers.find(v);
        return i == numbers.end() ? ~0u : i->second;
    }
    bool operator()(const Value* a, const Value* b) const {
        unsigned x = num(a), y = num(b);
        return x != y ? x < y : a < b;
    }
};

struct Sym { // sum coef * value + c, in bytes
    std::map<const Value*, int64_t, ByNumber> t;
    int64_t                         c = 0;
    bool operator<(const Sym& o) const { return c != o.c ? c < o.c : t < o.t; }
    bool operator==(const Sym& o) const { return c == o.c && t == o.t; }
    void add(const Sym& o, int64_t f = ONE) { // f in fixed point
        c += mulf(o.c, f);
        for (auto& x : o.t)
            addTerm(x.first, mulf(x.second, f));
    }
    void addTerm(const Value* v, int64_t k) {
        auto& r = t[v];
        r += k;
        if (!r)
            t.erase(v);
    }
    static int64_t mulf(int64_t a, int64_t b) { return (int64_t)((__int128)a * b / ONE); }
    Sym            plus(int64_t bytes) const {
        Sym r = *this;
        r.c += bytes * ONE;
        return r;
    }
    Sym minus(const Sym& o) const {
        Sym r = *this;
        r.add(o, -ONE);
        return r;
    }
};
using Range = std::pair<Sym, Sym>;
struct Items {
    std::vector<Range> live;
    std::vector<Range> kill;  // being destroyed by a loop
    std::set<Sym>      zero, non; // known to be zero, known not to be
    bool               unsure = false, impossible = false;
    bool operator<(const Items& o) const { return std::tie(live, kill, zero, non, unsure, impossible) < std::tie(o.live, o.kill, o.zero, o.non, o.unsure, o.impossible); }
};

struct Field {
    const Value* cont;
    AllocaInst * b = nullptr, *e = nullptr;
};

class VecxRule : public Rule {
public:
    ACtx&            C;
    const Function&  F;
    int64_t          SZ;
    DominatorTree    DT;
    LoopInfo         LI;
    int              kI = intern("vx:items");
    std::map<Items, int>                            ids;
    std::vector<Items>                              tab;
    std::vector<Range>                              initial;
    std::set<const Value*>                          initB;
    std::map<const PHINode*, std::set<const BasicBlock*>> needed;
    bool                                            ctor, dtor;
    VecxRule(ACtx& c, const Function& f, int64_t sz)
        : C(c)
        , F(f)
        , SZ(sz)
        , DT(const_cast<Function&>(f))
        , LI(DT) {
        ctor = c.op.has("out") && !c.op.has("cont");
        dtor = c.op.has("dtor");
        for (auto& B : F) {
            if (LI.getLoopFor(&B) && LI.getLoopFor(&B)->getHeader() == &B)
                continue;
            for (auto& P : B.phis()) { // blocks from which something computed from the choice can still be used
                std::set<const BasicBlock*> s;
                std::vector<const Value*>   wl{ &P };
                std::set<const Value*>      seen;
                std::vector<const BasicBlock*> bw;
                while (!wl.empty()) {
                    auto* v = wl.back();
                    wl.pop_back();
                    if (!seen.insert(v).second)
                        continue;
                    for (auto* U : v->users())
                        if (auto* I = dyn_cast<Instruction>(U)) {
                            bw.push_back(I->getParent());
                            if (auto* ph = dyn_cast<PHINode>(I))
                                for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i)
                                    if (ph->getIncomingValue(i) == v)
                                        bw.push_back(ph->getIncomingBlock(i));
                            if (!isa<LoadInst>(I))
                                wl.push_back(I);
                        }
                }
                while (!bw.empty()) {
                    auto* x = bw.back();
                    bw.pop_back();
                    if (s.insert(x).second && x != &B)
                        for (auto* p : predecessors(x))
                            bw.push_back(p);
                }
                needed[&P] = s;
            }
        }
    }
    void bad(const std::string& m, const Instruction* I) { C.R.violate("C21", C.op.name, m, whereOf(I)); }
    Items get(const PS& ps) { return tab[ps.get(kI) - 1]; }
    void  put(PS& ps, const Items& i0) {
        Items i = i0;
        if (i.unsure || i.impossible) { // nothing else matters
            i            = Items();
            i.unsure     = !i0.impossible;
            i.impossible = i0.impossible;
        }
        std::sort(i.live.begin(), i.live.end());
        auto it = ids.find(i);
        if (it == ids.end()) {
            tab.push_back(i);
            it = ids.emplace(i, (int)tab.size()).first;
        }
        ps.set(kI, it->second);
    }
    bool isHeaderPhi(const Value* v) const {
        auto* P = dyn_cast<PHINode>(v);
        auto* L = P ? LI.getLoopFor(P->getParent()) : nullptr;
        return L && L->getHeader() == P->getParent();
    }
    // ---- symbolic value of an expression
    void symInto(const Value* v, int64_t f, Sym& out, const Env* env, int depth = 0) const {
        if (auto* k = dyn_cast<ConstantInt>(v)) {
            out.c += k->getSExtValue() * f;
            return;
        }
        if (isa<ConstantPointerNull>(v))
            return;
        if (depth < 40) {
            if (isa<PHINode>(v) || isa<LoadInst>(v)) {
                auto* P = v;
                if (env && !isHeaderPhi(P)) {
                    if (auto it = env->f.find(P); it != env->f.end()) {
                        if (it->second.k == AV::Const) {
                            out.c += it->second.c * f;
                            return;
                        }
                        if (it->second.v != P)
                            return symInto(it->second.v, f, out, env, depth + 1);
                    }
                }
            } else if (auto* G = dyn_cast<GEPOperator>(v)) {
                symInto(G->getPointerOperand(), f, out, env, depth + 1);
                auto& DL = F.getParent()->getDataLayout();
                for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                    if (StructType* ST = it.getStructTypeOrNull())
                        out.c += (int64_t)DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()) * f;
                    else
                        symInto(it.getOperand(), f * (int64_t)DL.getTypeAllocSize(it.getIndexedType()), out, env, depth + 1);
                }
                return;
            } else if (auto* O = dyn_cast<Operator>(v)) {
                const ConstantInt* k = O->getNumOperands() == 2 ? dyn_cast<ConstantInt>(O->getOperand(1)) : nullptr;
                switch (O->getOpcode()) {
                case Instruction::PtrToInt:
                case Instruction::IntToPtr:
                case Instruction::BitCast:
                case Instruction::SExt:
                case Instruction::ZExt:
                    if (O->getOperand(0)->getType()->isIntegerTy(1))
                        break;
                    return symInto(O->getOperand(0), f, out, env, depth + 1);
                case Instruction::Freeze:
                    return symInto(O->getOperand(0), f, out, env, depth + 1);
                case Instruction::Add:
                    symInto(O->getOperand(0), f, out, env, depth + 1);
                    return symInto(O->getOperand(1), f, out, env, depth + 1);
                case Instruction::Sub:
                    symInto(O->getOperand(0), f, out, env, depth + 1);
                    return symInto(O->getOperand(1), -f, out, env, depth + 1);
                case Instruction::Mul:
                    if (k)
                        return symInto(O->getOperand(0), f * k->getSExtValue(), out, env, depth + 1);
                    break;
                case Instruction::Shl:
                    if (k && k->getZExtValue() < 16)
                        return symInto(O->getOperand(0), f << k->getZExtValue(), out, env, depth + 1);
                    break;
                case Instruction::SDiv:
                case Instruction::UDiv:
                    if (k && k->getSExtValue() == SZ && f % SZ == 0)
                        return symInto(O->getOperand(0), f / SZ, out, env, depth + 1);
                    break;
                case Instruction::AShr:
                case Instruction::LShr:
                    if (k && (1ll << k->getZExtValue()) == SZ && f % SZ == 0)
                        return symInto(O->getOperand(0), f / SZ, out, env, depth + 1);
                    break;
                case Instruction::And: // clearing the low bits of a difference of element addresses
                    if (k && k->getSExtValue() == -SZ)
                        return symInto(O->getOperand(0), f, out, env, depth + 1);
                    break;
                default:
                    break;
                }
            } else if (auto* II = dyn_cast<IntrinsicInst>(v)) {
                if (II->getIntrinsicID() == Intrinsic::expect || II->getIntrinsicID() == Intrinsic::launder_invariant_group)
                    return symInto(II->getArgOperand(0), f, out, env, depth + 1);
            }
        }
        out.addTerm(v, f);
    }
    Sym sym(const Value* v, const Env* env) const {
        Sym s;
        symInto(v, ONE, s, env);
        return s;
    }
    // ---- linear equalities known on the path
    std::vector<Sym> equations(const Env& env) const {
        std::vector<Sym> r;
        for (auto& f : env.f) {
            if (auto* IC = dyn_cast<ICmpInst>(f.first)) {
                if (IC->isEquality() && f.second.k == AV::Const && ((IC->getPredicate() == CmpInst::ICMP_EQ) == (f.second.c != 0)))
                    r.push_back(sym(IC->getOperand(0), &env).minus(sym(IC->getOperand(1), &env)));
                continue;
            }
            if (isa<Constant>(f.first) || f.first->getType()->isIntegerTy(1))
                continue;
            if (!isa<PHINode>(f.first) && f.second.k != AV::Const)
                continue;
            Sym s;
            s.addTerm(f.first, ONE);
            if (f.second.k == AV::Const)
                s.c -= f.second.c * ONE;
            else
                s.add(sym(f.second.v, &env), -ONE);
            r.push_back(s);
        }
        return r;
    }
    const Items* cur = nullptr; // whose equalities count
    bool isZero(Sym d, const Env& env, bool all = false) const {
        if (d.t.empty() && !all)
            return d.c == 0;
        std::vector<Sym> eqs = equations(env);
        if (cur)
            eqs.insert(eqs.begin(), cur->zero.begin(), cur->zero.end());
        // eliminate
        for (size_t n = 0; n < eqs.size(); ++n) {
            if (eqs[n].t.empty()) {
                if (eqs[n].c)
                    return true; // no such path
                continue;
            }
            std::pair<const Value*, int64_t> pv = *eqs[n].t.begin(); // the largest coefficient, so that the others divide by it or not at all
            for (auto& x : eqs[n].t)
                if (std::abs(x.second) > std::abs(pv.second))
                    pv = x;
            auto  el = [&](Sym& s) {
                auto it = s.t.find(pv.first);
                if (it == s.t.end())
                    return;
                __int128 q = (__int128)it->second * ONE;
                if (q % pv.second)
                    return;
                s.add(eqs[n], -(int64_t)(q / pv.second));
            };
            for (size_t m = n + 1; m < eqs.size(); ++m)
                el(eqs[m]);
            el(d);
            if (d.t.empty() && d.c == 0)
                return true;
        }
        return d.t.empty() && d.c == 0;
    }
    bool eq(const Sym& a, const Sym& b, const Env& env) const { return isZero(a.minus(b), env); }
    bool empty(const Range& r, const Env& env) const {
        if (eq(r.first, r.second, env))
            return true;
        if (r.first.c == 0 && r.first.t.size() == 1 && initB.count(r.first.t.begin()->first) && eq(r.first, Sym(), env)) // no storage, hence no elements
            for (auto& i : initial)
                if (i.first == r.first && eq(i.second, r.second, env))
                    return true;
        return false;
    }
    void tidy(Items& it, const Env& env) const {
        for (size_t i = 0; i < it.live.size();)
            if (empty(it.live[i], env))
                it.live.erase(it.live.begin() + i);
            else
                ++i;
        for (bool ch = true; ch;) {
            ch = false;
            for (size_t i = 0; i < it.live.size() && !ch; ++i)
                for (size_t j = 0; j < it.live.size() && !ch; ++j)
                    if (i != j && eq(it.live[i].second, it.live[j].first, env)) {
                        it.live[i].second = it.live[j].second;
                        it.live.erase(it.live.begin() + j);
                        ch = true;
                    }
        }
    }
    void addLive(Items& it, const Range& r, const Env& env) const {
        for (auto& l : it.live) {
            if (eq(l.second, r.first, env)) {
                l.second = r.second;
                return;
            }
            if (eq(l.first, r.second, env)) {
                l.first = r.first;
                return;
            }
        }
        it.live.push_back(r);
    }
    // the fresh allocation an address lies in
    const Value* block(const Sym& a) const {
        for (auto& t : a.t)
            if (t.second == ONE)
                if (auto* CB = dyn_cast<CallBase>(t.first); CB && CB->getType()->isPointerTy())
                    return CB;
        return nullptr;
    }
    // false: nothing alive there
    bool remove(Items& it, const Range& r, const Env& env) const {
        if (empty(r, env))
            return true;
        for (size_t i = 0; i < it.live.size(); ++i) {
            auto& l  = it.live[i];
            bool  lo = eq(l.first, r.first, env), hi = eq(l.second, r.second, env);
            if (lo && hi)
                it.live.erase(it.live.begin() + i);
            else if (hi)
                l.second = r.first;
            else if (lo)
                l.first = r.second;
            else
                continue;
            return true;
        }
        if (it.live.empty())
            return false;
        // in the middle of the one interval it can belong to
        std::vector<size_t> cand;
        for (size_t i = 0; i < it.live.size(); ++i) {
            auto& l = it.live[i];
            if (isConstCont(l) || block(l.first) != block(r.first))
                continue;
            Sym lo = r.first.minus(l.first), hi = l.second.minus(r.second);
            if ((lo.t.empty() && lo.c < 0) || (hi.t.empty() && hi.c < 0))
                continue;
            cand.push_back(i);
        }
        if (cand.empty())
            return false;
        if (cand.size() == 1) {
            Range l = it.live[cand[0]];
            it.live.erase(it.live.begin() + cand[0]);
            it.live.push_back({ l.first, r.first });
            it.live.push_back({ r.second, l.second });
            return true;
        }
        it.unsure = true;
        return true;
    }
    std::set<const Value*> constB;
    bool                   isConstCont(const Range& r) const { return r.first.t.size() == 1 && constB.count(r.first.t.begin()->first); }

    // ---- loops
    // header phi the address moves with, its loop being around I
    const PHINode* mover(const Sym& a, const Instruction* I, const Loop** LL, int64_t* step) const {
        for (auto& t : a.t) {
            auto* P = dyn_cast<PHINode>(t.first);
            if (!P || !isHeaderPhi(P))
                continue;
            const Loop* L = LI.getLoopFor(P->getParent());
            if (!L->contains(I->getParent()))
                continue;
            if (auto s = stepOf(P, L)) {
                *LL   = L;
                *step = Sym::mulf(t.second, *s * ONE) / ONE;
                return P;
            }
        }
        return nullptr;
    }
    // the address changes, or the same one is used again, from round to round
    bool movesUnknown(const Sym&, const Instruction* I) const { return LI.getLoopFor(I->getParent()) != nullptr; }
    std::optional<int64_t> stepOf(const PHINode* P, const Loop* L) const {
        std::optional<int64_t> r;
        for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
            if (L->contains(P->getIncomingBlock(i))) {
                Sym d = sym(P->getIncomingValue(i), nullptr);
                d.addTerm(P, -ONE);
                if (!d.t.empty() || d.c % ONE || (r && *r != d.c / ONE))
                    return std::nullopt;
                r = d.c / ONE;
            }
        return r;
    }
    std::optional<Sym> initOf(const PHINode* P, const Loop* L, const Env& env) const {
        const Value* v = nullptr;
        for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
            if (!L->contains(P->getIncomingBlock(i))) {
                if (v && v != P->getIncomingValue(i))
                    return std::nullopt;
                v = P->getIncomingValue(i);
            }
        if (!v)
            return std::nullopt;
        return sym(v, &env);
    }
    template<class Fn> void each(Items& it, Fn f) {
        for (auto* v : { &it.live, &it.kill })
            for (auto& r : *v)
                f(r.first), f(r.second);
    }
    void start(FlowCtx& c) override {
        Items it;
        it.live = initial;
        put(c.ps, it);
    }
    static int64_t coef(const Sym& s, const Value* v) {
        auto i = s.t.find(v);
        return i == s.t.end() ? 0 : i->second;
    }
    void onInst(const Instruction* I, FlowCtx& c) override {
        auto* CB = dyn_cast<CallBase>(I);
        if (!CB)
            return;
        Elem e = elemOf(CB);
        if (!e.is || !e.dst || (!e.construct && !e.destroy))
            return;
        C.R.count("C21.obligations");
        Items       it   = get(c.ps);
        if (it.impossible || it.unsure)
            return;
        cur = &it;
        Sym         a    = sym(e.dst, &c.env);
        const Loop* L    = nullptr;
        int64_t     step = 0;
        auto*       P    = mover(a, I, &L, &step);
        if (P && (step == SZ || step == -SZ)) {
            auto init = initOf(P, L, c.env);
            if (!init) {
                it.unsure = true;
                put(c.ps, it);
                return;
            }
            Sym lo = a, hi = a.plus(SZ);
            Sym from = a;
            int64_t k = coef(from, P);
            from.addTerm(P, -k);
            from.add(*init, k); // address in the first round
            if (e.destroy) {
                Range r     = step > 0 ? Range{ from, hi } : Range{ lo, from.plus(SZ) };
                bool  found = false;
                for (auto& k : it.kill)
                    if (step > 0 ? k.first == r.first && k.second == lo : k.second == r.second && k.first == hi)
                        k = r, found = true;
                if (!found)
                    it.kill.push_back(r);
            } else {
                bool found = false;
                for (auto& l : it.live)
                    if (step > 0 ? eq(l.second, lo, c.env) : eq(l.first, hi, c.env)) {
                        (step > 0 ? l.second : l.first) = step > 0 ? hi : lo;
                        found                           = true;
                        break;
                    }
                if (!found)
                    it.live.push_back(step > 0 ? Range{ from, hi } : Range{ lo, from.plus(SZ) });
            }
        } else if (P || movesUnknown(a, I)) {
            it.unsure = true;
        } else {
            Range r{ a, a.plus(SZ) };
            if (e.construct)
                addLive(it, r, c.env);
            else if (!remove(it, r, c.env) && !it.unsure)
                bad("destroys an element that is not alive", I);
            tidy(it, c.env);
        }
        put(c.ps, it);
    }
    int roundKey(const Loop* L) { return intern("vx:round" + std::to_string((uintptr_t)L->getHeader())); }
    const BasicBlock* here = nullptr;
    // defined in a loop that is still running
    bool inLoopValue(const Value* v) const {
        auto* I = dyn_cast<Instruction>(v);
        for (const Loop* L = I ? LI.getLoopFor(I->getParent()) : nullptr; L; L = L->getParentLoop())
            if (L->contains(here))
                return true;
        return false;
    }
    void note(Items& it, Sym d, bool zero, const Env& env) const {
        // addresses in their first round are known
        for (bool ch = true; ch;) {
            ch = false;
            for (auto& t : d.t)
                if (isHeaderPhi(t.first))
                    if (auto f = env.f.find(t.first); f != env.f.end()) {
                        auto  v = t.first;
                        auto  k = t.second;
                        d.addTerm(v, -k);
                        if (f->second.k == AV::Const)
                            d.c += Sym::mulf(f->second.c * ONE, k);
                        else
                            symInto(f->second.v, k, d, &env);
                        ch = true;
                        break;
                    }
        }
        for (auto& t : d.t)
            if (inLoopValue(t.first) || isa<CastInst>(t.first))
                return;
        if (d.t.empty()) {
            if ((d.c == 0) != zero)
                it.impossible = true;
            return;
        }
        if (d.t.begin()->second < 0) {
            Sym m;
            m.add(d, -ONE);
            d = m;
        }
        if (zero) {
            if (isZeroE(d, it))
                return;
            it.zero.insert(d);
            if (contradictory(it)) {
                it.impossible = true;
                return;
            }
            for (auto& n : it.non)
                if (isZeroE(n, it))
                    it.impossible = true;
        } else {
            if (isZeroE(d, it))
                it.impossible = true;
            it.non.insert(d);
        }
    }
    bool contradictory(const Items& it) const {
        Sym one;
        one.c = ONE;
        return isZeroE(one, it, true);
    }
    bool isZeroE(const Sym& d, const Items& it, bool all = false) const {
        Env none(F.getParent()->getDataLayout());
        (void)it;
        return isZero(d, none, all);
    }
    void learnEdge(Items& it, const BasicBlock* from, const BasicBlock* to, const Env& env) {
        auto* br = dyn_cast<BranchInst>(from->getTerminator());
        if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1))
            return;
        learnCond(it, br->getCondition(), br->getSuccessor(0) == to, env, 0);
    }
    void learnCond(Items& it, const Value* v, bool val, const Env& env, int depth) {
        v = env.resolve(v);
        if (depth > 4)
            return;
        if (auto* II = dyn_cast<IntrinsicInst>(v); II && II->getIntrinsicID() == Intrinsic::expect)
            return learnCond(it, II->getArgOperand(0), val, env, depth + 1);
        auto* IC = dyn_cast<ICmpInst>(v);
        if (!IC || !IC->isEquality())
            return;
        bool  z = (IC->getPredicate() == CmpInst::ICMP_EQ) == val;
        auto* k = dyn_cast<ConstantInt>(IC->getOperand(1));
        const Value* x = env.resolve(IC->getOperand(0));
        while (auto* II = dyn_cast<IntrinsicInst>(x))
            if (II->getIntrinsicID() == Intrinsic::expect)
                x = env.resolve(II->getArgOperand(0));
            else
                break;
        if (k && k->isZero())
            if (auto* Z = dyn_cast<ZExtInst>(x); Z && Z->getOperand(0)->getType()->isIntegerTy(1))
                return learnCond(it, Z->getOperand(0), !z, env, depth + 1);
        note(it, sym(IC->getOperand(0), &env).minus(sym(IC->getOperand(1), &env)), z, env);
    }
    void onEdge(const BasicBlock* from, const BasicBlock* to, FlowCtx& c) override {
        Items it = get(c.ps);
        if (it.impossible || it.unsure) {
            for (auto& n : needed)
                c.ps.set(key(n.first), 0);
            return;
        }
        cur  = &it;
        here = to;
        learnEdge(it, from, to, c.env);
        if (it.impossible) {
            put(c.ps, it);
            return;
        }
        // leaving a loop: what its moving addresses are now
        for (const Loop* L = LI.getLoopFor(from); L && !L->contains(to); L = L->getParentLoop()) {
            auto* br = dyn_cast<BranchInst>(from->getTerminator());
            auto* IC = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
            const PHINode* Fp = nullptr;
            Sym            val; // value of Fp here
            int64_t        sF = 0;
            if (IC) {
                bool taken = br->getSuccessor(0) == to;
                auto p     = taken ? IC->getPredicate() : IC->getInversePredicate();
                Sym  x = sym(IC->getOperand(0), nullptr), y = sym(IC->getOperand(1), nullptr);
                Sym  d = x.minus(y); // relation d ? 0
                for (auto& P : L->getHeader()->phis()) {
                    int64_t k = coef(d, &P);
                    if (k != ONE && k != -ONE)
                        continue;
                    auto s = stepOf(&P, L);
                    if (!s || !*s)
                        continue;
                    Sym rest = d;
                    rest.addTerm(&P, -k);
                    Sym v;
                    v.add(rest, k > 0 ? -ONE : ONE); // P == v when d == 0
                    bool lessD = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT;   // d < 0
                    bool grD   = p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SGT;
                    bool leD   = p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLE, geD = p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGE;
                    if (k < 0) {
                        std::swap(lessD, grD);
                        std::swap(leD, geD);
                    }
                    if (p == CmpInst::ICMP_EQ || (geD && *s > 0) || (leD && *s < 0))
                        ;
                    else if ((lessD && *s < 0) || (grD && *s > 0))
                        v.c += *s * ONE; // one step beyond the bound
                    else
                        continue;
                    Fp = &P;
                    sF = *s;
                    val = v;
                    break;
                }
            }
            if (Fp) {
                if (auto F0 = initOf(Fp, L, c.env)) {
                    Sym v3;
                    v3.c = val.c;
                    for (auto& t : val.t)
                        symInto(t.first, t.second, v3, &c.env);
                    note(it, v3.minus(*F0), !c.ps.get(roundKey(L)), c.env); // not a single round, or at least one
                }
                // bounds as known on this path
                Sym v2;
                v2.c = val.c;
                for (auto& t : val.t)
                    symInto(t.first, t.second, v2, &c.env);
                auto F0 = initOf(Fp, L, c.env);
                for (auto& P : L->getHeader()->phis()) {
                    auto s  = stepOf(&P, L);
                    auto I0 = initOf(&P, L, c.env);
                    if (!s || !I0 || !F0 || *s * ONE % sF)
                        continue;
                    Sym rep = *I0;
                    Sym k   = v2.minus(*F0);
                    rep.add(k, *s * ONE / sF);
                    each(it, [&](Sym& x) {
                        if (int64_t q = coef(x, &P)) {
                            x.addTerm(&P, -q);
                            x.add(rep, q);
                        }
                    });
                }
            }
            c.ps.set(roundKey(L), 0);
            // destructions of the loop are complete
            auto kills = it.kill;
            it.kill.clear();
            for (auto& k : kills)
                if (!remove(it, k, c.env) && !it.unsure)
                    bad("destroys elements that are not alive", from->getTerminator());
        }
        tidy(it, c.env);
        // going round: every moving address has advanced
        const Loop* L = LI.getLoopFor(to);
        if (L && L->getHeader() == to) {
            bool back = L->contains(from);
            c.ps.set(roundKey(L), back);
            for (auto* S : { &it.zero, &it.non })
                for (auto i = S->begin(); i != S->end();) {
                    bool gone = false;
                    for (auto& t : i->t)
                        if (auto* I = dyn_cast<Instruction>(t.first); I && L->contains(I->getParent()))
                            gone = true;
                    i = gone ? S->erase(i) : std::next(i);
                }
            for (auto& P : to->phis()) {
                auto s = stepOf(&P, L);
                each(it, [&](Sym& x) {
                    if (int64_t q = coef(x, &P)) {
                        if (!back || !s)
                            it.unsure = true;
                        else
                            x.c -= Sym::mulf(q, *s * ONE);
                    }
                });
            }
            if (back)
                each(it, [&](Sym& x) {
                    for (auto& t : x.t)
                        if (auto* I = dyn_cast<Instruction>(t.first); I && !(isa<PHINode>(I) && I->getParent() == to) && L->contains(I->getParent()))
                            it.unsure = true;
                });
        }
        put(c.ps, it);
        for (auto& n : needed) // choices no longer needed
            if (!n.second.count(to))
                c.ps.set(key(n.first), 0);
        for (auto& P : to->phis())
            if (needed.count(&P))
                c.ps.set(key(&P), P.getBasicBlockIndex(from) + 1);
    }
    std::map<const PHINode*, int> keys;
    int                           key(const PHINode* P) {
        auto& k = keys[P];
        if (!k)
            k = intern("vx:phi" + std::to_string((uintptr_t)P));
        return k;
    }
    // the call reporting the fields nearest before I
    const CallBase* marker(const Instruction* I) const {
        for (auto* J = I; J; J = J->getPrevNode())
            if (auto* CB = dyn_cast<CallBase>(J))
                if (CB->getCalledFunction() && CB->getCalledFunction()->getName() == "w_fields")
                    return CB;
        return nullptr;
    }
    std::string show(const Sym& s) const {
        std::string r;
        for (auto& t : s.t) {
            r += r.empty() ? "" : "+";
            if (t.second != ONE)
                r += std::to_string(t.second / (double)ONE).substr(0, 4) + "*";
            raw_string_ostream os(r);
            t.first->printAsOperand(os, false);
        }
        if (s.c || r.empty())
            r += "+" + std::to_string(s.c / ONE);
        return r;
    }
    void exit(const Instruction* I, bool thrown, FlowCtx& c) {
        Items it = get(c.ps);
        cur      = &it;
        if (it.impossible)
            return;
        C.R.count("C21.obligations");
        if (it.unsure) {
            C.R.count("C21.undecided");
            return;
        }
        tidy(it, c.env);
        auto* m = marker(I);
        if (!m)
            return;
        std::vector<Range> want;
        if (!(ctor && thrown) && !dtor)
            for (unsigned i = 0; i + 1 < m->arg_size(); i += 2) {
                Range r{ sym(m->getArgOperand(i), &c.env), sym(m->getArgOperand(i + 1), &c.env) };
                if (C.op.has("out") && thrown && i / 2 == outIdx)
                    continue;
                if (!empty(r, c.env))
                    want.push_back(r);
            }
        Items rest = it;
        if (getenv("VX_DEBUG")) {
            for (auto& l : it.live)
                errs() << "live [" << show(l.first) << ", " << show(l.second) << ")\n";
            for (auto& l : want)
                errs() << "want [" << show(l.first) << ", " << show(l.second) << ")\n";
            for (auto& l : it.zero)
                errs() << "zero " << show(l) << "\n";
            for (auto& l : it.non)
                errs() << "non " << show(l) << "\n";
            errs() << (thrown ? "throw " : "ret ") << C.op.name << " " << *I << "\n";
        }
        for (auto& w : want) {
            bool found = false;
            for (size_t i = 0; i < rest.live.size(); ++i)
                if (eq(rest.live[i].first, w.first, c.env) && eq(rest.live[i].second, w.second, c.env)) {
                    rest.live.erase(rest.live.begin() + i);
                    found = true;
                    break;
                }
            if (!found) {
                if (getenv("VX_DEBUG"))
                    errs() << "^^^ BAD\n";
                bad(std::string(thrown ? "an exception leaves" : "the operation ends with") + " begin and end not enclosing exactly the elements alive", I);
                return;
            }
        }
        if (!rest.live.empty() && getenv("VX_DEBUG"))
            errs() << "^^^ BAD\n";
        if (!rest.live.empty())
            bad(std::string(thrown ? "an exception leaves" : "the operation ends with") + " elements alive that the vector does not hold", I);
    }
    unsigned outIdx = ~0u;
    void     onRet(const ReturnInst* R, FlowCtx& c) override { exit(R, false, c); }
    void     onThrowExit(const Instruction* I, FlowCtx& c) override { exit(I, true, c); }
};

// offsets of begin and end, from what data() and size() read
bool fieldOffsets(ACtx& c, int64_t& ob, int64_t& oe) {
    auto* D = c.M.getFunction("op_data");
    auto* S = c.M.getFunction("op_size");
    if (!D || !S || D->isDeclaration() || S->isDeclaration())
        return false;
    auto loads = [&](Function* f) {
        std::set<int64_t> r;
        for (auto& I : instructions(*f))
            if (auto* L = dyn_cast<LoadInst>(&I)) {
                APInt o(64, 0);
                if (L->getPointerOperand()->stripAndAccumulateConstantOffsets(c.M.getDataLayout(), o, true) == f->getArg(0))
                    r.insert(o.getSExtValue());
            }
        return r;
    };
    auto d = loads(D), s = loads(S);
    if (d.size() != 1 || s.size() != 2 || !s.count(*d.begin()))
        return false;
    ob = *d.begin();
    s.erase(ob);
    oe = *s.begin();
    return true;
}

// reads of a local written once, before anything else could have written it
void forwardSingleStores(Function& F) {
    DominatorTree          DT(F);
    std::vector<CallBase*> calls;
    for (auto& I : instructions(F))
        if (auto* CB = dyn_cast<CallBase>(&I))
            if (!isa<IntrinsicInst>(CB) && !elemOf(CB).is)
                for (auto& u : CB->args())
                    if (isa<AllocaInst>(u->stripInBoundsOffsets())) {
                        calls.push_back(CB);
                        break;
                    }
    std::vector<LoadInst*> gone;
    for (auto& I : F.getEntryBlock()) {
        auto* A = dyn_cast<AllocaInst>(&I);
        if (!A)
            continue;
        StoreInst*             S  = nullptr;
        bool                   ok = true;
        std::vector<LoadInst*> ls;
        for (auto* U : A->users()) {
            if (auto* T = dyn_cast<StoreInst>(U); T && T->getPointerOperand() == A) {
                ok = ok && !S;
                S  = T;
            } else if (auto* L = dyn_cast<LoadInst>(U))
                ls.push_back(L);
            else if (isa<StoreInst>(U) || (isa<IntrinsicInst>(U) && (cast<IntrinsicInst>(U)->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(U))))
                ; // its address kept in another local
            else if (!isa<CallBase>(U))
                ok = false;
        }
        if (!ok || !S)
            continue;
        for (auto* L : ls) {
            if (L->getType() != S->getValueOperand()->getType() || !DT.dominates(S, L))
                continue;
            bool touched = false;
            for (auto* CB : calls)
                touched = touched || isPotentiallyReachable(CB, L, nullptr, &DT);
            if (!touched) {
                L->replaceAllUsesWith(S->getValueOperand());
                gone.push_back(L);
            }
        }
    }
    for (auto* L : gone)
        L->eraseFromParent();
}

void run(ACtx& c) {
    if (c.op.has("shared") && !c.op.has("copyop"))
        return;
    if (!c.consts.count("w_sizeof_VT"))
        return;
    int64_t ob, oe;
    if (!fieldOffsets(c, ob, oe)) {
        c.R.errors.push_back("cannot tell the vector's fields from data() and size()");
        return;
    }
    c.R.count("C21.ops");
    ValueToValueMapTy VM;
    Function*         F  = CloneFunction(const_cast<Function*>(&c.F), VM);
    lowerPointerSelects(*F);
    forwardSingleStores(*F);
    auto&             DL = c.M.getDataLayout();
    std::vector<unsigned> conts;
    std::set<unsigned>    outs;
    auto argNums = [&](const std::string& tag) {
        std::vector<unsigned> r;
        std::string           s = c.op.get(tag);
        for (size_t i = 0; i < s.size();) {
            size_t j = s.find(',', i);
            if (j == std::string::npos)
                j = s.size();
            r.push_back((unsigned)std::stoul(s.substr(i, j - i)));
            i = j + 1;
        }
        return r;
    };
    if (c.op.has("cont"))
        conts = argNums("cont");
    if (c.op.has("out"))
        for (auto a : argNums("out"))
            conts.push_back(a), outs.insert(a);
    // each 8-byte word of a vector object becomes a variable
    std::vector<AllocaInst*>                 vars;
    std::map<std::pair<unsigned, int64_t>, AllocaInst*> var;
    bool                                     ok = true;
    IRBuilder<>                              EB(&*F->getEntryBlock().getFirstInsertionPt());
    Type*                                    PT = PointerType::getUnqual(c.M.getContext());
    std::map<AllocaInst*, LoadInst*>         first;
    for (unsigned a : conts)
        for (int64_t o = 0; o < 24; o += 8) {
            auto* A = EB.CreateAlloca(PT);
            vars.push_back(A);
            var[{ a, o }] = A;
        }
    for (unsigned a : conts)
        for (int64_t o = 0; o < 24; o += 8) {
            auto* A = var[{ a, o }];
            if (outs.count(a)) {
                EB.CreateStore(ConstantPointerNull::get(cast<PointerType>(PT)), A);
                continue;
            }
            auto* L = EB.CreateLoad(PT, EB.CreateConstGEP1_64(EB.getInt8Ty(), F->getArg(a), o));
            first[A] = L;
            EB.CreateStore(L, A);
        }
    std::set<const Instruction*> mine;
    for (auto& f : first)
        mine.insert(f.second);
    std::vector<Instruction*> dead;
    for (auto& I : instructions(*F)) {
        if (mine.count(&I))
            continue;
        auto at = [&](Value* p, unsigned& a, int64_t& o) {
            APInt off(64, 0);
            auto* b = p->stripAndAccumulateConstantOffsets(DL, off, true);
            for (unsigned x : conts)
                if (b == F->getArg(x)) {
                    a = x;
                    o = off.getSExtValue();
                    return true;
                }
            return false;
        };
        unsigned a;
        int64_t  o;
        if (auto* L = dyn_cast<LoadInst>(&I)) {
            if (at(L->getPointerOperand(), a, o)) {
                if (!var.count({ a, o }) || DL.getTypeStoreSize(L->getType()) != 8) {
                    ok = false;
                    continue;
                }
                IRBuilder<> B(L);
                Value*      v = B.CreateLoad(PT, var[{ a, o }]);
                mine.insert(cast<Instruction>(v));
                if (L->getType() != PT)
                    v = B.CreatePtrToInt(v, L->getType());
                L->replaceAllUsesWith(v);
                dead.push_back(L);
            }
        } else if (auto* S = dyn_cast<StoreInst>(&I)) {
            if (at(S->getPointerOperand(), a, o)) {
                if (!var.count({ a, o }) || DL.getTypeStoreSize(S->getValueOperand()->getType()) != 8) {
                    ok = false;
                    continue;
                }
                IRBuilder<> B(S);
                Value*      v = S->getValueOperand();
                if (v->getType() != PT)
                    v = B.CreateIntToPtr(v, PT);
                B.CreateStore(v, var[{ a, o }]);
                dead.push_back(S);
            }
        } else if (auto* MS = dyn_cast<MemSetInst>(&I)) {
            if (at(MS->getDest(), a, o)) {
                auto* n = dyn_cast<ConstantInt>(MS->getLength());
                auto* z = dyn_cast<ConstantInt>(MS->getValue());
                if (!n || !z || !z->isZero() || n->getZExtValue() % 8) {
                    ok = false;
                    continue;
                }
                IRBuilder<> B(MS);
                for (int64_t x = o; x < o + (int64_t)n->getZExtValue(); x += 8)
                    if (var.count({ a, x }))
                        B.CreateStore(ConstantPointerNull::get(cast<PointerType>(PT)), var[{ a, x }]);
                dead.push_back(MS);
            }
        } else if (auto* CB = dyn_cast<CallBase>(&I)) {
            if (isa<DbgInfoIntrinsic>(CB) || CB->isLifetimeStartOrEnd())
                continue;
            for (auto& u : CB->args())
                if (u->getType()->isPointerTy() && at(u.get(), a, o))
                    ok = false;
        }
    }
    for (auto* I : dead)
        I->eraseFromParent();
    if (!ok) {
        c.R.count("C21.skipped");
        F->eraseFromParent();
        return;
    }
    // report begin and end before every instruction that may be the last one
    FunctionCallee MK;
    {
        std::vector<Type*> ty(conts.size() * 2, PT);
        MK = FunctionType::get(Type::getVoidTy(c.M.getContext()), ty, false) ? c.M.getOrInsertFunction("w_fields" , FunctionType::get(Type::getVoidTy(c.M.getContext()), true)) : FunctionCallee();
        cast<Function>(MK.getCallee())->setDoesNotThrow();
    }
    std::vector<Instruction*> exits;
    for (auto& I : instructions(*F))
        if (isa<ReturnInst>(I) || isa<ResumeInst>(I) || (isa<CallInst>(I) && mayThrow(cast<CallBase>(&I))))
            exits.push_back(&I);
    for (auto* I : exits) {
        IRBuilder<>         B(I);
        std::vector<Value*> v;
        for (unsigned a : conts) {
            v.push_back(B.CreateLoad(PT, var[{ a, ob }]));
            v.push_back(B.CreateLoad(PT, var[{ a, oe }]));
        }
        B.CreateCall(MK, v)->setDebugLoc(I->getDebugLoc());
    }
    {
        DominatorTree DT(*F);
        PromoteMemToReg(vars, DT);
    }
    {
        unsigned n = 0;
        numbers.clear();
        for (auto& A : F->args())
            numbers[&A] = ++n;
        for (auto& I : instructions(*F))
            numbers[&I] = ++n;
        VecxRule r(c, *F, c.consts["w_sizeof_VT"]);
        for (size_t i = 0; i < conts.size(); ++i) {
            unsigned a = conts[i];
            if (outs.count(a)) {
                r.outIdx = (unsigned)i;
                continue;
            }
            Range iv;
            iv.first.addTerm(first[var[{ a, ob }]], ONE);
            iv.second.addTerm(first[var[{ a, oe }]], ONE);
            r.initial.push_back(iv);
            r.initB.insert(first[var[{ a, ob }]]);
            if (i > 0 && c.op.has("copyassign"))
                r.constB.insert(first[var[{ a, ob }]]);
            if (c.op.has("copyop"))
                r.constB.insert(first[var[{ a, ob }]]);
        }
        if (getenv("VX_DUMP"))
            F->print(errs());
        FlowStats st;
        if (!runFlow(*F, r, st, 400000))
            c.R.errors.push_back("state budget exceeded in " + c.op.name);
    }
    F->eraseFromParent();
}
RuleReg reg("vecx", run);
} // namespace
