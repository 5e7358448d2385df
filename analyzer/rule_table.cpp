// Hash tables: a throwing insertion adds nothing (C13); erasing destroys, unmarks and uncounts the same element (C14).
#include "rules.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include <numeric>

namespace {
std::string num(const Value* v) { return std::to_string((uintptr_t)v); }

// what a plain query function returns: the offset of the word it loads from its first argument
int64_t queryOff(Module& M, const char* name) {
    auto* F = M.getFunction(name);
    if (!F || F->isDeclaration())
        return -1;
    for (auto& I : instructions(*F))
        if (auto* R = dyn_cast<ReturnInst>(&I); R && R->getReturnValue())
            if (auto* L = dyn_cast<LoadInst>(R->getReturnValue())) {
                Env e(M.getDataLayout());
                Lin l = e.lin(L->getPointerOperand());
                if (l.base == F->getArg(0) && l.terms.empty())
                    return l.off;
            }
    return -1;
}
// offset of the table inside one submap of a parallel container
int64_t submapOff(Module& M, int64_t stride) {
    auto* F = M.getFunction("op_with_submap");
    if (!F || F->isDeclaration())
        return -1;
    for (auto& I : instructions(*F))
        if (auto* C = dyn_cast<CallBase>(&I); C && calleeName(C) == "w_cbset__R") {
            Env e(M.getDataLayout());
            Lin l = e.lin(C->getArgOperand(0));
            if (l.base == F->getArg(0))
                return l.off % stride;
        }
    return -1;
}

class TableRule : public Rule {
public:
    ACtx&                  C;
    std::set<const Value*> cont, its, erCont;
    std::string            fam;
    int64_t                stride = 0, sizeOff = -1, capOff = -1;
    bool                   node, insOp, erOp, whole, multi, copyCtor, ext;
    int kNC = intern("t.nc"), kNM = intern("t.nm"), kS = intern("t.s"), kMV = intern("t.mv"), kTab = intern("t.tab"), kAlloc = intern("t.alloc"),
        kFreed = intern("t.freed"), kD = intern("t.d"), kM = intern("t.m"), kOk = intern("t.ok"), kWD = intern("t.wd"), kAnyD = intern("t.anyd"),
        kWiped = intern("t.wiped"), kZero = intern("t.zero"), kMoved = intern("t.moved"), kFull = intern("t.full"), kRes = intern("t.res"), kEq = intern("t.eq"), kG = intern("t.g"), kTW = intern("t.tw"), kDead = intern("t.dead"), kMS = intern("t.ms");
    std::map<int, const Value*> place;
    std::string                 err;
    explicit TableRule(ACtx& c)
        : C(c)
        , cont(argSet(c, "cont"))
        , its(argSet(c, "it"))
        , fam(c.op.get("fam")) {
        auto& o = c.op;
        if (o.has("copyop") || o.has("ctorop"))
            for (auto* v : argSet(c, "out"))
                cont.insert(v);
        node     = fam == "node";
        copyCtor = o.has("copyop") || o.has("ctorop");
        insOp    = o.has("ins") || o.has("assign") || o.has("nodeins") || o.has("cbi") || o.has("insmulti") || o.has("nd") || copyCtor || o.has("toggle");
        erOp     = o.has("er") || o.get("ret_") == "erased" || o.get("name") == "op_clear";
        if (o.has("toggle"))
            erOp = false;
        whole  = o.has("whole");
        erCont = cont;
        if (o.has("mergeop") && c.F.arg_size() > 1) {
            erOp   = true;
            erCont = { c.F.getArg(1) };
        }
        multi = o.has("insmulti") || copyCtor || o.has("multi") || o.has("mergeop");
        ext   = o.has("ext");
        long n = o.num("n", 1);
        if (n > 1) {
            stride    = c.consts.count("w_sizeof_M") ? c.consts["w_sizeof_M"] / n : 0;
            int64_t s = stride ? submapOff(c.M, stride) : -1;
            sizeOff   = queryOff(c.M, "op_sub_size");
            capOff    = queryOff(c.M, "op_sub_capacity");
            if (s < 0 || sizeOff < 0 || capOff < 0)
                err = "cannot locate the size and capacity of a submap";
            sizeOff += s;
            capOff += s;
        } else {
            sizeOff = queryOff(c.M, "op_size");
            capOff  = queryOff(c.M, "op_capacity");
            if (sizeOff < 0 || capOff < 0)
                err = "cannot locate size and capacity";
        }
    }
    void bad(const char* p, const std::string& m, const Instruction* I) { C.R.violate(p, C.op.name, m, whereOf(I)); }
    void obl(const char* p) { C.R.count(std::string(p) + ".obligations"); }
    std::set<const Value*> contOf(const Value* p, const Env& env) {
        Roots r;
        rootsOf(p, env, r, true);
        std::set<const Value*> s;
        for (auto* v : cont)
            if (r.direct.count(v) || r.deep.count(v))
                s.insert(v);
        for (auto* v : its)
            if (r.deep.count(v))
                s.insert(*cont.begin());
        return s;
    }
    // word of the container object itself
    bool cellOf(const Value* p, const Env& env, const Value** base, int64_t* off) {
        Lin l = env.lin(p);
        if (!cont.count(l.base))
            return false;
        if (!stride && !l.terms.empty())
            return false;
        *base = l.base;
        *off  = stride ? l.off % stride : l.off;
        return true;
    }
    // memory of the table: reached through the container, or a block just allocated for it
    bool tableMem(const Value* p, const Env& env) {
        Roots r;
        rootsOf(p, env, r, true);
        for (auto* v : cont)
            if (r.deep.count(v))
                return true;
        for (auto* v : its)
            if (r.deep.count(v))
                return true;
        for (auto* v : r.direct)
            if (isAllocCall(v) && !env.evalInt(cast<CallBase>(v)->getArgOperand(0)))
                return true;
        return false;
    }
    static bool negConst(const Value* v, const Env& env, int depth = 0) {
        if (auto k = env.evalInt(v))
            return (int8_t)*k < 0;
        v = env.resolve(v);
        if (depth > 6)
            return false;
        if (auto* P = dyn_cast<PHINode>(v)) {
            for (auto& u : P->incoming_values())
                if (!negConst(u.get(), env, depth + 1))
                    return false;
            return true;
        }
        if (auto* S = dyn_cast<SelectInst>(v))
            return negConst(S->getTrueValue(), env, depth + 1) && negConst(S->getFalseValue(), env, depth + 1);
        return false;
    }
    bool overlaps(const std::set<const Value*>& a, const std::set<const Value*>& b) {
        for (auto* v : a)
            if (b.count(v))
                return true;
        return false;
    }
    // is the stored tag the hash of an element that is already in the table?
    bool relocMark(const Value* v, const Value* at, const Env& env) {
        std::set<const Value*> ls, mine = contOf(at, env);
        leavesOf(v, env, ls, true);
        bool any = false;
        for (auto* l : ls)
            if (auto* CB = dyn_cast<CallBase>(l); CB && calleeName(CB) == "w_hash__R") {
                any = true;
                if (!overlaps(contOf(CB->getArgOperand(0), env), mine.empty() ? cont : mine))
                    return false;
            } else if (isa<Argument>(l) && l->getType()->isIntegerTy())
                return false;
        return any;
    }
    bool wantsFork(const CallBase* I) override { return erOp && !multi && !whole && calleeName(I) == "w_eq__RR"; }
    void onForked(const CallBase*, bool b, FlowCtx& c) override { c.ps.set(kEq, b); }
    bool inEr(const Value* p, const Env& env) { return overlaps(contOf(p, env), erCont); }
    bool unwinds(const CallBase* I, FlowCtx& c) override {
        if (calleeName(I) != "w_hash__R" || C.op.has("copyop"))
            return true;
        // hashing the elements already in the table again is assumed not to fail
        return contOf(I->getArgOperand(0), c.env).empty();
    }
    void tryCommit(FlowCtx& c) {
        if (c.ps.get(kNC) && c.ps.get(kNM) && (c.ps.get(kS) == 1 || copyCtor)) {
            c.ps.set(kNC, 0);
            c.ps.set(kNM, 0);
            c.ps.set(kS, 0);
        }
    }
    void tryErased(FlowCtx& c, const Instruction* I) {
        if ((c.ps.get(kD) || (ext && node)) && c.ps.get(kM) && c.ps.get(kS) == 2) {
            if (c.ps.get(kOk) == 1)
                bad("C14", "the slot marked free is not the slot of the element destroyed", I);
            c.ps.set(kD, 0);
            c.ps.set(kM, 0);
            c.ps.set(kS, 0);
            c.ps.set(kOk, 0);
            c.ps.set(kRes, 1);
        }
    }
    static void idx(const Value* p, const Env& env, std::map<const Value*, int64_t>& out) {
        Lin l = env.lin(p);
        for (int n = 0; n < 3; ++n) { // base + (q - base)
            const Value *neg = nullptr, *pos = nullptr;
            for (auto& t : l.terms)
                if (auto* PI = dyn_cast<PtrToIntOperator>(t.first)) {
                    if (t.second == -1 && samePlace(PI->getPointerOperand(), l.base, env))
                        neg = t.first;
                    else if (t.second == 1)
                        pos = t.first;
                }
            if (!neg || !pos)
                break;
            l.terms.erase(neg);
            l.terms.erase(pos);
            Lin q = env.lin(cast<PtrToIntOperator>(pos)->getPointerOperand());
            l.base = q.base;
            for (auto& t : q.terms)
                l.terms[t.first] += t.second;
        }
        if (l.terms.empty())
            if (auto* L = dyn_cast<LoadInst>(l.base)) {
                Lin m = env.lin(L->getPointerOperand());
                if (!m.terms.empty() && !isa<Argument>(m.base))
                    l = m;
            }
        int64_t g = 0;
        for (auto& t : l.terms)
            g = std::gcd(g, std::abs(t.second));
        for (auto& t : l.terms)
            if (t.second)
                out[t.first] = t.second / g;
    }
    // 2: certainly different index, 1: same, 0: cannot tell
    int cmpIdx(const Value* slot, const Value* ctrl, const Env& env) {
        std::map<const Value*, int64_t> a, b;
        idx(slot, env, a);
        idx(ctrl, env, b);
        if (a.empty() || b.empty())
            return a.empty() && b.empty() ? 1 : 2;
        if (a.size() != b.size())
            return 2;
        for (auto& t : a) {
            bool f = false;
            for (auto& u : b)
                if (u.second == t.second && (u.first == t.first || sameVal(u.first, t.first, env)))
                    f = true;
            if (!f)
                return 2;
        }
        return 1;
    }
    int cellKey(const Value* b, int64_t off) { return intern("t.cell" + num(b) + ":" + std::to_string(off)); }

    void onInst(const Instruction* I, FlowCtx& c) override {
        if (c.ps.get(kDead))
            return;
        if (auto* S = dyn_cast<StoreInst>(I)) {
            const Value* b;
            int64_t      off;
            const Value* v = S->getValueOperand();
            if (cellOf(S->getPointerOperand(), c.env, &b, &off)) {
                cellStore(I, b, off, v, c);
                return;
            }
            if (insOp && !multi && !c.ps.get(kTW) && !isa<AllocaInst>(c.env.lin(S->getPointerOperand()).base))
                c.ps.set(kTW, 1);
            if (v->getType()->isIntegerTy(8) && tableMem(S->getPointerOperand(), c.env)) {
                mark(I, S->getPointerOperand(), v, c);
                return;
            }
            if (node && v->getType()->isPointerTy() && tableMem(S->getPointerOperand(), c.env)) {
                auto from = contOf(v, c.env), to = contOf(S->getPointerOperand(), c.env);
                if (C.op.has("mergeop") && overlaps(from, erCont) && !overlaps(to, erCont)) { // the node is handed over
                    obl("C14");
                    c.ps.set(kD, intern("t.node"));
                    place[c.ps.get(kD)] = v;
                    return;
                }
                Roots r;
                rootsOf(v, c.env, r, true);
                bool fresh = false;
                for (auto* x : r.direct)
                    fresh |= isAllocCall(x);
                bool byArg = false;
                for (auto* x : r.deep)
                    byArg |= isa<Argument>(x) && !cont.count(x);
                if (insOp && (fresh || byArg || (!from.empty() && !overlaps(from, to)))) {
                    c.ps.set(kNC, 1);
                    c.ps.set(kMV, 0);
                    tryCommit(c);
                }
            }
            return;
        }
        if (auto* MI = dyn_cast<AnyMemIntrinsic>(I)) {
            if (auto* MS = dyn_cast<AnyMemSetInst>(MI))
                if (tableMem(MI->getRawDest(), c.env) && negConst(MS->getValue(), c.env))
                    c.ps.set(kWiped, 1);
            return;
        }
        auto* CB = dyn_cast<CallBase>(I);
        if (!CB)
            return;
        const Value* fp;
        if (isAllocCall(CB)) {
            c.ps.set(kAlloc, 1);
            return;
        }
        if (isFreeCall(CB, &fp)) {
            Lin l = c.env.lin(fp);
            if (auto* L = dyn_cast<LoadInst>(l.base)) {
                const Value* b;
                int64_t      off;
                if (cellOf(L->getPointerOperand(), c.env, &b, &off)) {
                    if (!c.ps.get(cellKey(b, off))) // the container still refers to the block
                        c.ps.set(kFreed, 1);
                    c.ps.set(kWiped, 1);
                }
            }
            return;
        }
        Elem e = elemOf(CB);
        if (!e.is) {
            if (erOp && c.ps.get(kWD))
                if (auto r = roleOf(CB))
                    for (unsigned i = 0; i < CB->arg_size() && i < r->acc.size(); ++i)
                        if ((r->acc[i] == 'R' || r->acc[i] == 'W') && samePlace(CB->getArgOperand(i), place[c.ps.get(kWD)], c.env)) {
                            obl("C14");
                            bad("C14", "uses an element after destroying it", I);
                        }
            return;
        }
        if (!e.key)
            return;
        bool dt = tableMem(e.dst, c.env);
        if (insOp && !node && e.construct && dt) {
            auto from = e.src ? contOf(e.src, c.env) : std::set<const Value*>(), to = contOf(e.dst, c.env);
            bool tainted = false;
            if (e.src) {
                Roots r;
                rootsOf(e.src, c.env, r, true);
                for (auto* x : r.direct)
                    if (isa<AllocaInst>(x) && c.ps.get(intern("t.taint" + num(x))))
                        tainted = true;
            }
            obl("C13");
            if (!tainted && (C.op.has("copyop") || from.empty() || !(overlaps(from, to) || to.empty()))) {
                if (c.ps.get(kNC) && !multi)
                    bad("C13", "constructs a second element in the table", I);
                c.ps.set(kNC, 1);
                c.ps.set(kMV, 0);
                tryCommit(c);
            }
        }
        if (e.construct && e.src && !dt) { // an element of the table parked in a local variable
            Roots r;
            rootsOf(e.dst, c.env, r, true);
            for (auto* x : r.direct)
                if (isa<AllocaInst>(x))
                    c.ps.set(intern("t.taint" + num(x)), !contOf(e.src, c.env).empty());
        }
        if (insOp && !node && e.destroy && dt && c.ps.get(kNC) && !c.ps.get(kNM)) {
            c.ps.set(kNC, 0); // rolled back
        }
        if (erOp) {
            if (e.destroy && C.op.has("keyed") && !multi && !whole && !c.ps.get(kEq) && !isa<AllocaInst>(c.env.lin(e.dst).base)) {
                removal(I, e.dst, c);
                return;
            }
            if (e.construct && e.move && e.src && inEr(e.src, c.env)) {
                removal(I, e.src, c);
                int id    = intern("t.mv" + num(e.src));
                place[id] = e.src;
                c.ps.set(kMoved, id);
            } else if (e.destroy && inEr(e.dst, c.env)) {
                if (int m = c.ps.get(kMoved); m && samePlace(place[m], e.dst, c.env)) {
                    c.ps.set(kMoved, 0);
                    return;
                }
                removal(I, e.dst, c);
            }
        }
    }
    void removal(const Instruction* I, const Value* p, FlowCtx& c) {
        if (C.op.has("keyed") && !multi && !whole && !c.ps.get(kEq)) { // (C11 reports it) no such element: the path cannot be taken
            PS e;
            e.set(kDead, 1);
            c.ps = e;
            return;
        }
        obl("C14");
        if (int w = c.ps.get(kWD); w && samePlace(place[w], p, c.env))
            bad("C14", "destroys the same element twice", I);
        int id    = intern("t.wd" + num(p));
        place[id] = p;
        c.ps.set(kWD, id);
        c.ps.set(kAnyD, 1);
        c.ps.set(kFull, 0);
        if (whole) {
            if (!knownFull(p, c))
                bad("C14", "destroys an element without having seen that its slot is occupied", I);
            return;
        }
        if (c.ps.get(kD))
            bad("C14", "destroys an element while the one destroyed before it is still marked as present", I);
        if (c.ps.get(kRes) && !multi)
            bad("C14", "removes a second element", I);
        c.ps.set(kD, id);
        if (c.ps.get(kM))
            c.ps.set(kOk, 2); // marked first: indices were not compared
        tryErased(c, I);
    }
    bool knownFull(const Value* p, FlowCtx& c) {
        for (auto& f : c.env.f) {
            auto* IC = dyn_cast<ICmpInst>(f.first);
            if (!IC || f.second.k != AV::Const)
                continue;
            const Value* x = IC->getOperand(0);
            if (auto* SX = dyn_cast<SExtInst>(x))
                x = SX->getOperand(0);
            auto* L = dyn_cast<LoadInst>(x);
            if (!L || !L->getType()->isIntegerTy(8) || !tableMem(L->getPointerOperand(), c.env))
                continue;
            auto k = c.env.evalInt(IC->getOperand(1));
            if (!k)
                continue;
            bool t    = f.second.c != 0;
            bool full = false;
            switch (IC->getPredicate()) {
            case CmpInst::ICMP_SGT: full = t && *k >= -2; break;
            case CmpInst::ICMP_SGE: full = t && *k >= -1; break;
            case CmpInst::ICMP_SLT: full = !t && *k >= -1; break;
            case CmpInst::ICMP_SLE: full = !t && *k >= -2; break;
            default: break;
            }
            if (full && cmpIdx(p, L->getPointerOperand(), c.env) != 2)
                return true;
        }
        return false;
    }
    void cellStore(const Instruction* I, const Value* b, int64_t off, const Value* v, FlowCtx& c) {
        if (v->getType()->isPointerTy()) {
            if (insOp && !c.ps.get(kAlloc))
                c.ps.set(kTab, 1);
            c.ps.set(cellKey(b, off), 1);
            c.ps.set(kFreed, 0);
            return;
        }
        if (off == capOff) {
            if (insOp && !c.ps.get(kAlloc))
                c.ps.set(kTab, 1);
            return;
        }
        // relative or absolute?
        Lin out;
        c.env.linIdx(v, 1, out, true);
        bool rel = false, pure = false;
        for (auto& t : out.terms)
            if (auto* L = dyn_cast<LoadInst>(t.first); L && t.second == 1) {
                const Value* b2;
                int64_t      o2;
                if (cellOf(L->getPointerOperand(), c.env, &b2, &o2) && b2 == b && o2 == off) {
                    rel  = true;
                    pure = out.terms.size() == 1;
                }
            }
        if (off != sizeOff) {
            if (insOp && !multi && !rel && !c.ps.get(kAlloc) && !c.ps.get(kTW))
                c.ps.set(kG, 1);
            if (insOp && !multi) {
                int k = intern("t.rel" + num(b) + ":" + std::to_string(off));
                if (!rel)
                    c.ps.set(k, 0);
                else if (pure)
                    c.ps.set(k, c.ps.get(k) == 99 ? 99 : c.ps.get(k) + (int)out.off);
                else
                    c.ps.set(k, 99);
            }
            return;
        }
        if (insOp) {
            obl("C13");
            if (rel && pure) {
                c.ps.set(kS, std::max(-2, std::min(2, c.ps.get(kS) + (int)out.off)));
                tryCommit(c);
            }
        }
        if (erOp && erCont.count(b)) {
            obl("C14");
            if (auto k = c.env.evalInt(v); k && *k == 0)
                c.ps.set(kZero, 1);
            if (rel && pure && out.off == -1) {
                if (c.ps.get(kS))
                    bad("C14", "counts one removal twice", I);
                c.ps.set(kS, 2);
                tryErased(c, I);
            }
        }
    }
    void mark(const Instruction* I, const Value* at, const Value* v, FlowCtx& c) {
        bool neg = negConst(v, c.env);
        int  id  = intern("t.v" + num(c.env.resolve(v)));
        int  si  = intern("t.s" + num(I));
        bool mirror = c.ps.get(kMV) == id && c.ps.get(kMS) != si; // the same value written again elsewhere
        if (insOp && !neg && !relocMark(v, at, c.env)) {
            obl("C13");
            if (mirror)
                return; // the same mark written to its mirror position
            c.ps.set(kMV, id);
            c.ps.set(kMS, si);
            c.ps.set(kNM, 1);
            tryCommit(c);
        }
        if (insOp && neg && c.ps.get(kNM) && !c.ps.get(kNC)) {
            c.ps.set(kNM, 0); // unmarked again
            c.ps.set(kMV, 0);
        }
        if (erOp && neg && !whole && inEr(at, c.env)) {
            obl("C14");
            int d = c.ps.get(kD), w = c.ps.get(kWD);
            const Value* el = d ? place[d] : w ? place[w] : nullptr;
            if (el) {
                int r = cmpIdx(el, at, c.env);
                if (mirror && !d) { // mirror of the mark that completed the removal
                    return;
                }
                int ok = c.ps.get(kOk);
                c.ps.set(kOk, r == 2 ? (ok == 2 ? 2 : 1) : 2);
            }
            if (mirror && c.ps.get(kM))
                ;
            else if (mirror && !d && !c.ps.get(kS))
                return;
            if (!mirror) {
                c.ps.set(kMV, id);
                c.ps.set(kMS, si);
            }
            c.ps.set(kM, 1);
            if (c.ps.get(kOk) != 1)
                tryErased(c, I);
        }
    }
    void onPhi(const PHINode* P, FlowCtx& c) override {
        if (int w = c.ps.get(kWD)) {
            std::set<const Value*> ls;
            leavesOf(place[w], c.env, ls, false);
            Lin l = c.env.lin(place[w], false);
            bool dep = l.base == P;
            for (auto& t : l.terms)
                dep |= t.first == P || dependsOn(t.first, P, 0);
            if (dep || dependsOn(place[w], P, 0))
                c.ps.set(kWD, 0);
        }
    }
    static bool dependsOn(const Value* v, const Value* p, int d) {
        if (v == p)
            return true;
        auto* I = dyn_cast<Instruction>(v);
        if (!I || d > 8 || isa<PHINode>(I))
            return false;
        for (auto& o : I->operands())
            if (dependsOn(o.get(), p, d + 1))
                return true;
        return false;
    }
    void onUnwind(const CallBase* I, FlowCtx& c) override {
        if (insOp && !multi && c.ps.get(kG) && isAllocCall(I) && !c.env.evalInt(I->getArgOperand(0))) {
            obl("C13");
            bad("C13", "a failed allocation of the table leaves its bookkeeping already changed", I);
        }
        if (copyCtor && c.ps.get(kNM) && !c.ps.get(kNC)) {
            obl("C13");
            bad("C13", "a slot is marked occupied when constructing its element throws", I);
        }
    }
    void onRet(const ReturnInst* R, FlowCtx& c) override {
        if (c.ps.get(kDead))
            return;
        if (insOp && !copyCtor) {
            obl("C13");
            int nc = c.ps.get(kNC), nm = c.ps.get(kNM), s = c.ps.get(kS);
            if (!(C.op.has("toggle") && s == -1))
                if ((nc || nm || s) && !C.op.has("mergeop"))
                    bad("C13", std::string("returns with an insertion half done:") + (nc ? "" : " no element constructed,") + (nm ? "" : " slot not marked,") + (s ? "" : " not counted,"), R);
        }
        if (erOp)
            endErase(R, c);
    }
    void endErase(const Instruction* R, FlowCtx& c) {
        obl("C14");
        if (whole) {
            if (c.ps.get(kAnyD) && !c.ps.get(kWiped))
                bad("C14", "elements were destroyed but their slots stay marked as occupied", R);
            if (c.ps.get(kAnyD) && !C.op.has("dtor") && !c.ps.get(kZero))
                bad("C14", "elements were destroyed but the size is not reset", R);
            return;
        }
        if (c.ps.get(kM) && c.ps.get(kOk) == 1)
            bad("C14", "the slot marked free is not the slot of the element destroyed", R);
        else if (c.ps.get(kD))
            bad("C14", !c.ps.get(kM) ? "an element is destroyed but its slot stays marked as occupied" : "an element is destroyed but still counted", R);
        else if (c.ps.get(kM) || c.ps.get(kS))
            bad("C14", "a slot is freed or an element uncounted although none was destroyed or handed over", R);
        if (c.ps.get(kMoved))
            bad("C14", "an element was moved out but not destroyed", R);
    }
    void onThrowExit(const Instruction* I, FlowCtx& c) override {
        if (c.ps.get(kDead))
            return;
        if (insOp && !copyCtor) {
            obl("C13");
            if (c.ps.get(kNM))
                bad("C13", "an exception leaves a slot marked occupied for an element that was not added", I);
            if (c.ps.get(kNC))
                bad("C13", "an exception leaves a constructed element that is not part of the table", I);
            if (c.ps.get(kS))
                bad("C13", "an exception leaves the size changed although no element was added", I);
            if (c.ps.get(kTab) && !multi)
                bad("C13", "an exception leaves the table's storage or capacity changed although nothing was allocated", I);
            if (c.ps.get(kFreed))
                bad("C13", "an exception leaves the container referring to released storage", I);
            if (!multi)
                for (auto& kv : c.ps.m)
                    if (internName(kv.first).rfind("t.rel", 0) == 0)
                        bad("C13", "an exception leaves the table's bookkeeping changed although no element was added", I);
        }
        if (erOp)
            endErase(I, c);
    }
};

// loops that destroy every element must visit every slot: first index 0, step 1, up to the capacity
void coverage(ACtx& c, TableRule& r) {
    Function&             F = const_cast<Function&>(c.F);
    DominatorTree         DT(F);
    LoopInfo              LI(DT);
    AssumptionCache       AC(F);
    TargetLibraryInfoImpl TII(Triple(c.M.getTargetTriple()));
    TargetLibraryInfo     TLI(TII);
    ScalarEvolution       SE(F, TLI, AC, DT, LI);
    Env                   env(c.M.getDataLayout());
    std::set<const Loop*> loops;
    for (auto& I : instructions(F))
        if (auto* CB = dyn_cast<CallBase>(&I)) {
            Elem e = elemOf(CB);
            if (e.is && e.key && e.destroy)
                for (const Loop* L = LI.getLoopFor(I.getParent()); L; L = L->getParentLoop())
                    loops.insert(L);
        }
    auto capLoad = [&](const SCEV* s) {
        auto* U = dyn_cast<SCEVUnknown>(s);
        auto* L = U ? dyn_cast<LoadInst>(U->getValue()) : nullptr;
        const Value* b;
        int64_t      off;
        return L && r.cellOf(L->getPointerOperand(), env, &b, &off) && off == r.capOff;
    };
    for (auto* L : loops) {
        // loads of single control bytes
        for (auto* BB : L->blocks())
            for (auto& I : *BB)
                if (auto* LD = dyn_cast<LoadInst>(&I); LD && LD->getType()->isIntegerTy(8) && r.tableMem(LD->getPointerOperand(), env)) {
                    auto* G = dyn_cast<GEPOperator>(LD->getPointerOperand());
                    if (!G || G->getNumIndices() != 1)
                        continue;
                    auto* A = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(G->getOperand(1)));
                    if (!A || A->getLoop() != L || !A->isAffine())
                        continue;
                    auto* step = dyn_cast<SCEVConstant>(A->getStepRecurrence(SE));
                    if (!step)
                        continue;
                    r.obl("C14");
                    if (!step->getAPInt().isOne() && !step->getAPInt().isAllOnes())
                        r.bad("C14", "skips slots while destroying all elements", LD);
                    if (auto* s = dyn_cast<SCEVConstant>(A->getStart()); s && step->getAPInt().isOne() && !s->isZero())
                        r.bad("C14", "does not start at the first slot when destroying all elements", LD);
                }
        SmallVector<BasicBlock*, 4> ex;
        L->getExitingBlocks(ex);
        for (auto* BB : ex) {
            auto* BI = dyn_cast<BranchInst>(BB->getTerminator());
            auto* IC = BI && BI->isConditional() ? dyn_cast<ICmpInst>(BI->getCondition()) : nullptr;
            if (!IC)
                continue;
            for (int k = 0; k < 2; ++k) {
                auto* A = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(IC->getOperand(k)));
                if (!A || A->getLoop() != L)
                    continue;
                const SCEV* B = SE.getSCEV(IC->getOperand(1 - k));
                if (auto* Ad = dyn_cast<SCEVAddExpr>(B); Ad && Ad->getNumOperands() == 2 && isa<SCEVConstant>(Ad->getOperand(0)) && capLoad(Ad->getOperand(1)))
                    if (auto* s = dyn_cast<SCEVConstant>(A->getStart()); s && s->isZero())
                        r.bad("C14", "does not go up to the last slot when destroying all elements", IC);
            }
        }
    }
}

void run(ACtx& c) {
    TableRule r(c);
    if (!r.insOp && !r.erOp)
        return;
    if (!r.err.empty()) {
        c.R.errors.push_back(r.err);
        return;
    }
    if (r.erOp && r.whole)
        coverage(c, r);
    FlowStats st;
    if (!runFlow(c.F, r, st, 400000))
        c.R.errors.push_back("state budget exceeded in " + c.op.name);
    c.R.count("table.ops");
}
RuleReg reg("table", run);
} // namespace
