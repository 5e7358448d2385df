// Intrusive pointers: per path, references taken minus dropped equals handles gained minus lost (C22).
#include "rules.h"

namespace {
class RefRule : public Rule {
public:
    ACtx&                      C;
    bool                       alias; // the two handles are the same object
    std::map<const Value*, int> loc;  // handle argument -> location number
    std::set<int>              inLocs, outLocs;
    std::map<int, std::string> nameOf;
    std::map<int, const Value*> valOf;
    int                        kRel = intern("refs:released"), kThr = intern("refs:thr");
    enum { Null = 1 };
    RefRule(ACtx& c, bool al)
        : C(c)
        , alias(al) {
        for (auto* a : argSet(c, "hin"))
            inLocs.insert(locOf(a));
        for (auto* a : argSet(c, "hout"))
            outLocs.insert(locOf(a));
        intern("refs:null"); // make sure ids used below are distinct from others
    }
    int locOf(const Value* a) {
        auto it = loc.find(a);
        if (it != loc.end())
            return it->second;
        int n = alias && !loc.empty() ? loc.begin()->second : (int)loc.size() + 1;
        return loc[a] = n;
    }
    int kCur(int l) { return intern("refs:cur" + std::to_string(l)); }
    int kInit(int l) { return intern("refs:init" + std::to_string(l)); }
    int kNet(int v) { return intern("refs:net" + std::to_string(v)); }
    int kNN(int v) { return intern("refs:nn" + std::to_string(v)); } // 1 non-null, 2 null
    int kLd(const Value* v) { return intern("refs:ld" + std::to_string((uintptr_t)v)); }
    int sym(const Value* v) {
        int id    = intern("refs:val" + std::to_string((uintptr_t)v));
        valOf[id] = v;
        return id;
    }
    int initSym(int l) {
        int id = intern("refs:initial" + std::to_string(l));
        return id;
    }
    int nullSym() { return intern("refs:null"); }
    // which handle does this address denote?
    int locAt(const Value* p, const Env& env) {
        Lin l = env.lin(p);
        if (!l.terms.empty() || l.off != 0)
            return 0;
        auto it = loc.find(env.resolve(l.base));
        return it == loc.end() ? 0 : it->second;
    }
    int cur(int l, const PS& ps) {
        int v = ps.get(kCur(l));
        return v ? v : inLocs.count(l) ? initSym(l) : 0;
    }
    // symbolic value of a pointer on this path
    int val(const Value* v, const Env& env, const PS& ps, int d = 0) {
        v = env.resolve(v);
        if (isa<ConstantPointerNull>(v))
            return nullSym();
        if (auto it = env.f.find(v); isa<PHINode>(v) && it != env.f.end() && it->second.k == AV::Const && it->second.c == 0)
            return nullSym();
        int s = 0;
        if (auto* G = dyn_cast<GEPOperator>(v))
            if (d < 8) {
                Lin l = env.lin(G);
                if (l.terms.empty() && l.off == 0)
                    return val(l.base, env, ps, d + 1);
            }
        if (isa<LoadInst>(v))
            s = ps.get(kLd(v));
        if (!s)
            s = sym(v);
        if (ps.get(kNN(s)) == 2)
            return nullSym();
        return s;
    }
    std::optional<bool> evalEq(const Value* a, const Value* b, const Env& env, const PS& ps) override {
        if (!a->getType()->isPointerTy())
            return std::nullopt;
        auto* ra = env.resolve(a);
        auto* rb = env.resolve(b);
        if (loc.count(ra) && loc.count(rb))
            return loc[ra] == loc[rb];
        int x = val(a, env, ps), y = val(b, env, ps);
        if (x == y)
            return true;
        if (y == nullSym() && ps.get(kNN(x)) == 1)
            return false;
        if (x == nullSym() && ps.get(kNN(y)) == 1)
            return false;
        return std::nullopt;
    }
    void onEdge(const BasicBlock* from, const BasicBlock* to, FlowCtx& c) override {
        auto* B = dyn_cast<BranchInst>(from->getTerminator());
        if (!B || !B->isConditional() || B->getSuccessor(0) == B->getSuccessor(1))
            return;
        bool         t  = B->getSuccessor(0) == to;
        const Value* cv = c.env.resolve(B->getCondition());
        while (auto* X = dyn_cast<BinaryOperator>(cv)) {
            if (X->getOpcode() != Instruction::Xor)
                break;
            auto k = c.env.evalInt(X->getOperand(1));
            if (!k)
                break;
            if (*k & 1)
                t = !t;
            cv = c.env.resolve(X->getOperand(0));
        }
        auto* IC = dyn_cast<ICmpInst>(cv);
        if (!IC || !IC->isEquality() || !IC->getOperand(0)->getType()->isPointerTy())
            return;
        bool eq = (IC->getPredicate() == CmpInst::ICMP_EQ) == t;
        note(IC->getOperand(0), IC->getOperand(1), eq, c);
        note(IC->getOperand(1), IC->getOperand(0), eq, c);
    }
    void note(const Value* a, const Value* b, bool eq, FlowCtx& c) {
        if (val(b, c.env, c.ps) != nullSym())
            return;
        int x = val(a, c.env, c.ps);
        if (x != nullSym())
            c.ps.set(kNN(x), eq ? 2 : 1);
    }
    void bad(const std::string& m, const Instruction* I) { C.R.violate("C22", C.op.name, m + (alias ? " (when both handles are the same object)" : ""), whereOf(I)); }
    void onInst(const Instruction* I, FlowCtx& c) override {
        if (auto* L = dyn_cast<LoadInst>(I)) {
            if (L->getType()->isPointerTy()) {
                c.ps.set(kLd(L), 0);
                if (int l = locAt(L->getPointerOperand(), c.env))
                    if (int v = cur(l, c.ps))
                        c.ps.set(kLd(L), v);
            }
            return;
        }
        if (auto* S = dyn_cast<StoreInst>(I)) {
            if (int l = locAt(S->getPointerOperand(), c.env)) {
                C.R.count("C22.obligations");
                if (S->getValueOperand()->getType()->isPointerTy())
                    c.ps.set(kCur(l), val(S->getValueOperand(), c.env, c.ps));
                else
                    bad("a handle is overwritten by something that is not a pointer", I);
                if (C.op.has("hin") && inLocs.count(l) && C.op.has("shared"))
                    bad("a read-only operation writes a handle", I);
            }
            return;
        }
        auto* CB = dyn_cast<CallBase>(I);
        if (!CB)
            return;
        std::string n = calleeName(CB);
        bool        add = n == "w_addref__R", rel = n == "w_release__R";
        if (!add && !rel)
            return;
        C.R.count("C22.obligations");
        int v = val(CB->getArgOperand(0), c.env, c.ps);
        if (v == nullSym() || c.ps.get(kNN(v)) != 1)
            bad(std::string(add ? "takes" : "drops") + " a reference through a pointer that may be null", I);
        if (C.op.has("noref"))
            bad("changes a reference count although no handle is created or destroyed", I);
        if (add && c.ps.get(kRel))
            bad("takes a reference after having dropped one: the object may already be gone", I);
        if (rel) {
            c.ps.set(kRel, 1);
            // the drop may run a destructor that reaches the surviving handles: none may point there without a reference
            int have = c.ps.get(kNet(v)) - 1, held = 0;
            for (int l : inLocs)
                have += norm(initSym(l), c) == norm(v, c);
            for (auto* a : argSet(C, "rawin"))
                have += norm(val(a, c.env, c.ps), c) == norm(v, c);
            for (int l : outLocs)
                if (int x = cur(l, c.ps))
                    held += norm(x, c) == norm(v, c);
            if (held > 0 && held > have)
                bad("drops a reference while a handle still points to the object without one: its destructor can reach that handle", I);
        }
        int k   = kNet(v);
        int cur = c.ps.get(k);
        cur += add ? 1 : -1;
        if (cur > 4 || cur < -4) {
            bad("changes the count of one object without bound", I);
            cur = 4;
        }
        c.ps.set(k, cur);
        valsSeen.insert(v);
    }
    // a dynamic cast yields its argument or null
    bool wantsFork(const CallBase* CB) override { return calleeName(CB) == "__dynamic_cast"; }
    void onForked(const CallBase* CB, bool b, FlowCtx& c) override { c.ps.set(kNN(sym(CB)), b ? 1 : 2); }
    std::set<int> valsSeen;
    void onRet(const ReturnInst* R, FlowCtx& c) override {
        C.R.count("C22.obligations");
        std::map<int, int> want; // handles gained per value
        for (int l : inLocs)
            --want[norm(initSym(l), c)];
        for (int l : outLocs) {
            int v = cur(l, c.ps);
            if (!v) {
                bad("a handle is left uninitialised", R);
                continue;
            }
            ++want[norm(v, c)];
        }
        for (auto* a : argSet(C, "rawin"))
            --want[norm(val(a, c.env, c.ps), c)];
        if (C.op.has("rawout") && R->getReturnValue())
            ++want[norm(val(R->getReturnValue(), c.env, c.ps), c)];
        std::map<int, int> got;
        for (int v : valsSeen)
            if (int n = c.ps.get(kNet(v)))
                got[norm(v, c)] += n;
        std::set<int> all;
        for (auto& w : want)
            all.insert(w.first);
        for (auto& g : got)
            all.insert(g.first);
        for (int v : all) {
            if (v == nullSym())
                continue;
            int g = got.count(v) ? got[v] : 0, w = want.count(v) ? want[v] : 0;
            if (g != w && getenv("DBG"))
                fprintf(stderr, "%s: %s got %d want %d\n", C.op.name.c_str(), internName(v).c_str(), g, w);
            if (g != w)
                bad(g > w ? "on some path more references are taken than handles exist: the object is never destroyed"
                          : "on some path a handle holds a pointer without a reference: the object is destroyed too early",
                    R);
        }
    }
    // the object a value denotes: null, or for a successful dynamic cast its source
    int norm(int v, FlowCtx& c, int d = 0) {
        if (c.ps.get(kNN(v)) == 2)
            return nullSym();
        auto it = valOf.find(v);
        if (it != valOf.end() && d < 8)
            if (auto* CB = dyn_cast<CallBase>(it->second))
                if (calleeName(CB) == "__dynamic_cast")
                    return norm(val(CB->getArgOperand(0), c.env, c.ps), c, d + 1);
        return v;
    }
};

void run(ACtx& c) {
    if (!c.op.has("refs"))
        return;
    c.R.count("C22.ops");
    for (bool al : { false, true }) {
        if (al && !(c.op.get("hin").find(',') != std::string::npos && c.op.get("hout").find(',') != std::string::npos && !c.op.has("distinct")))
            continue;
        RefRule   r(c, al);
        FlowStats st;
        if (!runFlow(c.F, r, st))
            c.R.errors.push_back("state budget exceeded in " + c.op.name);
    }
}
RuleReg reg("refs", run);
} // namespace
