// Keyed operations: equality decides (C11), nothing happens when the key is present (C12), callbacks and results (C10).
#include "rules.h"
#include <numeric>

namespace {
class KeyedRule : public Rule {
public:
    ACtx&                  C;
    std::set<const Value*> cont, its, args;
    int kMatch = intern("k.match"), kCalled = intern("k.called"), kCbp = intern("k.cbp"), kTouched = intern("k.touched"),
        kCons = intern("k.cons"), kDestr = intern("k.destr"), kAssign = intern("k.assign"), kEmit = intern("k.emit"), kPrev = intern("k.prev");
    std::map<int, const Value*> elemPtr;
    int64_t                     vsize;
    bool                        insertLike, assignOp, cbOp, parallel;
    std::string                 ret;
    explicit KeyedRule(ACtx& c)
        : C(c)
        , cont(argSet(c, "cont"))
        , its(argSet(c, "it"))
        , args(argSet(c, "args")) {
        vsize      = c.consts.count("w_sizeof_VT") ? c.consts["w_sizeof_VT"] : 8;
        assignOp   = c.op.has("assign");
        insertLike = c.op.has("ins") || assignOp || c.op.has("nodeins");
        ret        = c.op.get("ret_");
        cbOp       = c.op.has("cb");
        parallel   = c.op.num("n", 1) > 1;
    }
    void bad(const char* p, const std::string& m, const Instruction* I) { C.R.violate(p, C.op.name, m, whereOf(I)); }
    void obl(const char* p) { C.R.count(std::string(p) + ".obligations"); }
    bool inCont(const Value* p, const Env& env) {
        Roots r;
        rootsOf(p, env, r);
        return r.has(cont);
    }
    bool fromArgs(const Value* p, const Env& env) {
        Roots r;
        rootsOf(p, env, r);
        return r.has(args);
    }
    bool atMatch(const Value* p, FlowCtx& c) {
        int m = c.ps.get(kMatch);
        if (!m)
            return false;
        int64_t d = 0;
        return samePlace(p, elemPtr[m], c.env, &d) && d > -vsize && d < vsize;
    }
    std::optional<bool> evalEq(const Value* a, const Value* b, const Env& env, const PS& ps) override {
        int m = ps.get(kMatch);
        return eqWithMatch(m ? elemPtr[m] : nullptr, a, b, env);
    }
    bool wantsFork(const CallBase* I) override {
        std::string n = calleeName(I);
        return n == "w_eq__RR" || n == "w_cbp__W";
    }
    void onForked(const CallBase* I, bool b, FlowCtx& c) override {
        std::string n = calleeName(I);
        if (n == "w_cbp__W") {
            c.ps.set(kCbp, b ? 2 : 1);
            return;
        }
        bool a0 = inCont(I->getArgOperand(0), c.env), a1 = inCont(I->getArgOperand(1), c.env);
        obl("C11");
        if (a0 == a1)
            bad("C11", "the equality predicate is not applied to the given key and an element of the container", I);
        if (b) {
            const Value* e  = I->getArgOperand(a0 ? 0 : 1);
            int          id = intern("m:" + std::to_string((uintptr_t)e));
            elemPtr[id]     = e;
            c.ps.set(kMatch, id);
        }
    }
    void onPhi(const PHINode*, FlowCtx&) override {}

    void onInst(const Instruction* I, FlowCtx& c) override {
        auto* CB = dyn_cast<CallBase>(I);
        if (CB) {
            std::string n = calleeName(CB);
            if (isLockFn(n)) { // anything seen before the lock was (re)acquired no longer counts
                if (n.find("unlock") == std::string::npos) {
                    c.ps.set(kMatch, 0);
                }
                return;
            }
            if (n == "w_cbr__R" || n == "w_cbw__W" || n == "w_cbp__W") {
                c.ps.bump(kCalled);
                obl("C10");
                if (c.ps.get(kCalled) > 1)
                    bad("C10", "may call the user's function more than once", I);
                obl("C11");
                if (!c.ps.get(kMatch)) {
                    bad("C11", "hands an element to the callback although the equality predicate accepted none", I);
                    bad("C10", "calls the found-callback although the key was not found", I);
                } else if (!atMatch(CB->getArgOperand(0), c)) {
                    bad("C11", "hands the callback another element than the one the equality predicate accepted", I);
                    bad("C10", "the callback gets another element than the one found", I);
                }
                return;
            }
            if (n == "w_cbe__") {
                c.ps.bump(kEmit);
                obl("C10");
                if (c.ps.get(kEmit) > 1)
                    bad("C10", "may call the constructing callback more than once", I);
                if (c.ps.get(kMatch) && !C.op.has("toggle"))
                    bad("C10", "calls the constructing callback although the key was found", I);
                return;
            }
            Elem e = elemOf(CB);
            if (e.is) {
                bool dc = inCont(e.dst, c.env), sc = e.src && inCont(e.src, c.env);
                if (insertLike) {
                    if (e.assign && dc && !e.key && assignOp) {
                        obl("C11");
                        if (!c.ps.get(kMatch))
                            bad("C11", "assigns to an element although the equality predicate accepted none", I);
                        else if (!atMatch(e.dst, c))
                            bad("C11", "assigns to another element than the one the equality predicate accepted", I);
                        c.ps.bump(kAssign);
                        return;
                    }
                    if (dc || sc || !C.op.has("nodeins"))
                        c.ps.set(kTouched, 1);
                    if (e.key && e.construct && !sc) {
                        if (!e.src || fromArgs(e.src, c.env))
                            c.ps.bump(kCons);
                    }
                } else if (dc || sc) {
                    // lookups, erasures: the only element that may be touched is the accepted one
                    obl("C11");
                    const Value* p = dc ? e.dst : e.src;
                    if (C.op.has("toggle") && !c.ps.get(kMatch))
                        return;
                    if (!c.ps.get(kMatch))
                        bad("C11", "touches an element although the equality predicate accepted none", I);
                    else if (!atMatch(p, c))
                        bad("C11", "touches another element than the one the equality predicate accepted", I);
                    if (e.destroy && e.key)
                        c.ps.bump(kDestr);
                }
                return;
            }
        }
        if (insertLike) {
            std::vector<Access> acc;
            accessesOf(I, acc);
            for (auto& a : acc)
                if (a.write && (inCont(a.ptr, c.env) || (!C.op.has("nodeins") && fromArgs(a.ptr, c.env))))
                    c.ps.set(kTouched, 1);
        }
    }

    void onRet(const ReturnInst* R, FlowCtx& c) override {
        bool                match = c.ps.get(kMatch) != 0;
        int                 called = c.ps.get(kCalled), destr = c.ps.get(kDestr), cons = c.ps.get(kCons), emit = c.ps.get(kEmit);
        const Value*        rv = R->getReturnValue();
        std::optional<bool> t;
        if (rv)
            t = truth(rv, c.env);
        auto* ic = rv ? dyn_cast<ICmpInst>(c.env.resolve(rv)) : nullptr;
        const Instruction* W = R;
        if (C.op.has("retptr") && rv) {
            obl("C11");
            if (match && !atMatch(rv, c))
                bad("C11", "returns another element than the one the equality predicate accepted", W);
            if (!match && C.op.has("thr"))
                bad("C11", "returns an element although the equality predicate accepted none", W);
        }
        if (ret == "found") {
            obl("C11");
            if (match) {
                if (t ? !*t : !ic)
                    bad("C11", "reports absent although the equality predicate accepted an element", W);
            } else if (!t || *t)
                bad("C11", "reports present although the equality predicate accepted no element", W);
        }
        if (ret == "called") {
            obl("C10");
            if (called && !(t && *t))
                bad("C10", "the callback ran but the result does not say the key was found", W);
            if (!called && !(t && !*t))
                bad("C10", "the callback did not run but the result says the key was found", W);
            if (match && !called)
                bad("C10", "the key was found but the callback is not run", W);
        }
        if (ret == "erased") {
            obl("C10");
            obl("C11");
            if (destr > 1)
                bad("C10", "may destroy more than one element", W);
            if (destr && !(t && *t))
                bad("C10", "an element was erased but the result says otherwise", W);
            if (!destr && !(t && !*t))
                bad("C10", "nothing was erased but the result says otherwise", W);
            if (cbOp) {
                if (match && !called)
                    bad("C10", "the key was found but the predicate is not asked", W);
                if (called && (c.ps.get(kCbp) == 2) != (destr != 0))
                    bad("C10", "the predicate's answer does not decide erasure", W);
            } else if (match && !destr)
                bad("C11", "the key was found but its element is not erased", W);
        }
        if (insertLike) {
            obl("C12");
            bool node = C.op.has("nodeins");
            if (match) {
                if (assignOp) {
                    if (c.ps.get(kAssign) != 1)
                        bad("C11", "the key is present but its value is not assigned exactly once", W);
                    if (c.ps.get(kTouched))
                        bad("C12", "the key is present but more than its value is changed", W);
                } else if (!C.op.has("nd") && c.ps.get(kTouched))
                    bad("C12", "the key is present, yet an argument is consumed, an element is constructed or destroyed, or the container is written", W);
                if (cbOp) {
                    obl("C10");
                    if (called != 1)
                        bad("C10", "the key is present but the found-callback is not run exactly once", W);
                }
            } else {
                if (!node && !C.op.has("nd") && !handleMayBeEmpty() && cons != 1)
                    bad("C12", "the key is absent but not exactly one element is constructed from the arguments", W);
                if (C.op.has("cbi") && emit != 1)
                    bad("C10", "the key is absent but the constructing callback is not run exactly once", W);
                if (assignOp && c.ps.get(kAssign))
                    bad("C12", "the key is absent but an existing element is assigned", W);
            }
            if (ret == "inserted" && !(node && !match && t && !*t)) {
                if (!t || *t == match) {
                    bad("C12", "the result does not tell truthfully whether an element was inserted", W);
                    if (parallel)
                        bad("C10", "the result does not tell truthfully whether an element was inserted", W);
                }
            }
        } else if (C.op.has("cbi")) { // parallel lazy_emplace family without ins tag
            obl("C10");
            if (!match && emit != 1)
                bad("C10", "the key is absent but the constructing callback is not run exactly once", W);
            if (match && cbOp && called != 1)
                bad("C10", "the key is present but the found-callback is not run exactly once", W);
            if (ret == "inserted" && (!t || *t == match))
                bad("C10", "the result does not tell truthfully whether an element was inserted", W);
        }
    }
    bool handleMayBeEmpty() const { return false; }
};

void run(ACtx& c) {
    if (!c.op.has("keyed"))
        return;
    KeyedRule r(c);
    FlowStats st;
    if (!runFlow(c.F, r, st))
        c.R.errors.push_back("state budget exceeded in " + c.op.name);
    c.R.count("flow.states", st.states);
}
RuleReg reg("keyed", run);
} // namespace
