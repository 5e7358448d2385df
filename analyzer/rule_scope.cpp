// Scope guards (C24): the exit action runs exactly once iff enabled and not dismissed; values are restored exactly.
#include "rules.h"

namespace {
class ScopeRule : public Rule {
public:
    ACtx&        C;
    std::string  kind;
    int          en; // assumed value of the enable argument, -1 when defaulted
    const Value* enArg = nullptr;
    int          kSet = intern("sg:set"), kUnset = intern("sg:unset"), kBody = intern("sg:body"), kDis = intern("sg:dis");
    enum { Var0 = 1, Val0 = 2, Moved = 3, Other = 4 };
    ScopeRule(ACtx& c, int e)
        : C(c)
        , kind(c.op.get("sg"))
        , en(e) {
        if (c.op.has("en"))
            enArg = c.F.getArg((unsigned)c.op.num("en"));
    }
    bool enabled() const { return en != 0; }
    void bad(const std::string& m, const Instruction* I) { C.R.violate("C24", C.op.name, m, whereOf(I)); }
    int  tok(const Value* p, FlowCtx& c) { // token key of the object at p
        Roots r;
        rootsOf(p, c.env, r, true);
        const Value* root = nullptr;
        for (auto* v : r.direct)
            root = v;
        return intern("sg:tok" + std::to_string((uintptr_t)root));
    }
    int varKey() { return intern("sg:tok" + std::to_string((uintptr_t)C.F.getArg(0))); }
    void start(FlowCtx& c) override {
        if (enArg)
            c.env.f[enArg] = AV{ AV::Const, en, nullptr };
        if (kind == "v") {
            c.ps.set(varKey(), Var0);
            c.ps.set(intern("sg:tok" + std::to_string((uintptr_t)C.F.getArg(1))), Val0);
        }
    }
    void onInst(const Instruction* I, FlowCtx& c) override {
        auto* CB = dyn_cast<CallBase>(I);
        if (!CB)
            return;
        std::string n = calleeName(CB);
        if (n == "w_set__") {
            C.R.count("C24.obligations");
            c.ps.bump(kSet);
            if (!enabled())
                bad("the entry action runs although the guard is disabled", I);
            if (c.ps.get(kSet) > 1)
                bad("the entry action runs more than once", I);
        } else if (n == "w_unset__") {
            C.R.count("C24.obligations");
            c.ps.bump(kUnset);
            if (!enabled())
                bad("the exit action runs although the guard is disabled", I);
            if (c.ps.get(kDis))
                bad("the exit action runs although the guard was dismissed", I);
            if (c.ps.get(kUnset) > 1)
                bad("the exit action runs more than once", I);
        } else if (n == "w_body__") {
            C.R.count("C24.obligations");
            c.ps.set(kBody, 1);
            if (c.ps.get(kUnset))
                bad("the exit action runs before the scope ends", I);
            if (kind == "su" && enabled() && !c.ps.get(kSet))
                bad("the entry action has not run when the scope is entered", I);
            if (kind == "v" && c.ps.get(varKey()) != (enabled() ? Val0 : Var0))
                bad(enabled() ? "the variable does not hold the temporary value inside the scope" : "a disabled guard changes the variable", I);
        } else if (Elem e = elemOf(CB); e.is && kind == "v") {
            C.R.count("C24.obligations");
            int d = tok(e.dst, c);
            if (e.destroy || e.init)
                c.ps.set(d, Other);
            else if (e.src) {
                int s = tok(e.src, c);
                c.ps.set(d, c.ps.get(s) ? c.ps.get(s) : (int)Other);
                if (e.move && s != d)
                    c.ps.set(s, Moved);
            }
        }
    }
    bool wantsFork(const CallBase* C) override { return calleeName(C) == "w_pick__"; }
    void onForked(const CallBase*, bool b, FlowCtx& c) override {
        if (b)
            c.ps.set(kDis, 1);
    }
    void exit(const Instruction* I, FlowCtx& c) {
        if (!c.ps.get(kBody))
            return; // the guard was never completely constructed
        C.R.count("C24.obligations");
        bool run = enabled() && !c.ps.get(kDis);
        if (kind != "v") {
            if (run && c.ps.get(kUnset) != 1)
                bad("the scope is left without running the exit action", I);
        } else {
            int want = run ? Var0 : enabled() ? Val0 : Var0;
            if (c.ps.get(varKey()) != want)
                bad(run ? "the scope is left without restoring the value found" : enabled() ? "a dismissed guard changes the variable when the scope is left" : "a disabled guard changes the variable", I);
        }
    }
    void onRet(const ReturnInst* R, FlowCtx& c) override { exit(R, c); }
    void onThrowExit(const Instruction* I, FlowCtx& c) override {
        if (auto* CB = dyn_cast<CallBase>(I); CB && calleeName(CB) == "w_unset__")
            return;
        exit(I, c);
    }
};
void run(ACtx& c) {
    if (!c.op.has("sg"))
        return;
    c.R.count("C24.ops");
    for (int e : { 0, 1 }) {
        if (!c.op.has("en") && e == 0)
            continue;
        ScopeRule r(c, e);
        FlowStats st;
        if (!runFlow(c.F, r, st))
            c.R.errors.push_back("state budget exceeded in " + c.op.name);
    }
}
RuleReg reg("scope", run);
} // namespace
