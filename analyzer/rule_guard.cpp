// Lock guards (C06): every sequence of guard operations, including failing try-locks and throwing locks, is explored to a fixpoint; after each operation the
// guard's report, the mutex's state and what the operation promises are compared.
#include "rules.h"

namespace {
class GuardRule : public Rule {
public:
    ACtx&       C;
    std::string kind;
    int         kHeld[2], kSh[3][3]; // kSh[g][0]: mutex+1 (0 none yet), [1]: owns, [2]: owns shared
    int         kTry = intern("gd:try");
    GuardRule(ACtx& c)
        : C(c)
        , kind(c.op.get("guard")) {
        for (int i = 0; i < 2; ++i)
            kHeld[i] = intern("gd:held" + std::to_string(i));
        for (int g = 0; g < 3; ++g)
            for (int f = 0; f < 3; ++f)
                kSh[g][f] = intern("gd:sh" + std::to_string(g) + std::to_string(f));
    }
    void bad(const std::string& m, const Instruction* I) { C.R.violate("C06", C.op.name, m, whereOf(I)); }
    int  mutexOf(const Value* v, FlowCtx& c) { // 1, 2; 0 null; -1 unknown
        if (auto k = c.env.evalInt(v); k && *k == 0)
            return 0;
        const Value* r = c.env.resolve(v);
        if (isa<ConstantPointerNull>(r))
            return 0;
        for (unsigned i = 0; i < 2; ++i)
            if (r == C.F.getArg(i))
                return (int)i + 1;
        return -1;
    }
    bool wantsFork(const CallBase* CB) override {
        std::string n = calleeName(CB);
        return n == "w_trylock__M" || n == "w_trylockS__M";
    }
    void acquire(const CallBase* CB, int mode, FlowCtx& c, unsigned arg = 0) {
        int m = mutexOf(CB->getArgOperand(arg), c);
        if (m < 1)
            return bad(m ? "a lock operation on a mutex that is not the guard's" : "a guard without a mutex locks", CB);
        if (c.ps.get(kHeld[m - 1]))
            return bad("a mutex that is already held through the guard is locked again", CB);
        c.ps.set(kHeld[m - 1], mode);
    }
    void release(const CallBase* CB, int mode, FlowCtx& c) {
        int m = mutexOf(CB->getArgOperand(0), c);
        if (m < 1)
            return bad(m ? "an unlock operation on a mutex that is not the guard's" : "a guard without a mutex unlocks", CB);
        int h = c.ps.get(kHeld[m - 1]);
        if (!h)
            return bad("a mutex that is not held is unlocked", CB);
        if (h != mode)
            bad("a mutex is unlocked in a mode other than the one it was locked in", CB);
        c.ps.set(kHeld[m - 1], 0);
    }
    void onForked(const CallBase* CB, bool b, FlowCtx& c) override {
        C.R.count("C06.obligations");
        if (b)
            acquire(CB, calleeName(CB) == "w_trylock__M" ? 1 : 2, c);
    }
    void onInst(const Instruction* I, FlowCtx& c) override {
        auto* CB = dyn_cast<CallBase>(I);
        if (!CB)
            return;
        std::string n = calleeName(CB);
        if (n == "w_lock__M" || n == "w_lockS__M") {
            C.R.count("C06.obligations");
            acquire(CB, n == "w_lock__M" ? 1 : 2, c);
        } else if (n == "w_unlock__M" || n == "w_unlockS__M") {
            C.R.count("C06.obligations");
            release(CB, n == "w_unlock__M" ? 1 : 2, c);
        } else if (n.compare(0, 12, "w_multilock_") == 0) {
            C.R.count("C06.obligations");
            for (unsigned i = 0; i < CB->arg_size(); ++i)
                acquire(CB, n[12] == 'x' ? 1 : 2, c, i);
        } else if (n == "w_hold__") { // the caller of an adopting constructor holds the mutex
            int m = mutexOf(CB->getArgOperand(0), c);
            if (m > 0)
                c.ps.set(kHeld[m - 1], kind == "R" ? 2 : 1);
        } else if (n == "w_gst__")
            state(CB, c);
    }
    struct G {
        int  m, o, s;
        bool operator==(const G& x) const { return m == x.m && o == x.o && s == x.s; }
        bool owned() const { return o || s; }
    };
    void state(const CallBase* CB, FlowCtx& c) {
        C.R.count("C06.obligations");
        auto val = [&](unsigned i) -> int {
            auto r = c.env.evalInt(CB->getArgOperand(i));
            return r ? (int)(*r & 0xff) : -1;
        };
        int op = val(0), ret = val(1);
        G   p[3], g[3];
        for (unsigned i = 0; i < 3; ++i) {
            p[i] = G{ c.ps.get(kSh[i][0]), c.ps.get(kSh[i][1]), c.ps.get(kSh[i][2]) };
            g[i] = G{ mutexOf(CB->getArgOperand(2 + 3 * i), c), val(3 + 3 * i), val(4 + 3 * i) };
            if (g[i].o > 1)
                g[i].o = 1;
            if (g[i].s > 1)
                g[i].s = 1;
        }
        auto inv = [&] {
            int want[2] = { 0, 0 };
            for (int i = 0; i < 3; ++i) {
                if (g[i].o < 0 || g[i].s < 0)
                    return bad("whether the guard owns its mutex does not follow from its history", CB);
                if (g[i].owned() && g[i].m == 0)
                    return bad("a guard without a mutex reports that it owns one", CB);
                if (g[i].owned() && g[i].m > 0) {
                    int mode = g[i].s ? 2 : kind == "R" ? 2 : 1;
                    if (g[i].o && g[i].s)
                        return bad("a guard reports exclusive and shared ownership at once", CB);
                    if (want[g[i].m - 1])
                        return bad("two guards report owning the same mutex", CB);
                    want[g[i].m - 1] = mode;
                }
                if (g[i].owned() && g[i].m < 0)
                    return bad("the guard owns a mutex other than the ones it was given", CB);
            }
            for (int m = 0; m < 2; ++m) {
                int h = c.ps.get(kHeld[m]);
                if (h && !want[m])
                    bad("the mutex is held but no guard reports owning it", CB);
                else if (!h && want[m])
                    bad("a guard reports owning a mutex that is not held", CB);
                else if (h != want[m])
                    bad("a guard reports a mode other than the one the mutex is held in", CB);
            }
        };
        inv();
        G a = p[0], b = p[1], x = p[2];
        auto expect = [&](int i, const G& e, const char* what, bool mutexToo = true) {
            if ((mutexToo && g[i].m != e.m) || g[i].o != e.o || g[i].s != e.s)
                bad(what, CB);
        };
        bool rw = kind == "RW";
        switch (op) {
        case 1: expect(0, G{ a.m, 1, a.s }, "lock() returns without owning the guard's mutex"); expect(1, b, "another guard is affected"); break;
        case 2: expect(0, G{ a.m, 0, a.s }, "unlock() leaves the guard owning, or changes its mutex"); expect(1, b, "another guard is affected"); break;
        case 3:
            expect(0, G{ a.m, ret ? 1 : 0, 0 }, "try_lock() returns something else than whether the guard now owns its mutex");
            if (a.o && !ret)
                bad("try_lock() of a guard that owns its mutex gives it up", CB);
            expect(1, b, "another guard is affected");
            break;
        case 4: expect(0, b, "move assignment does not transfer the ownership"); expect(1, G{ 0, 0, 0 }, "a moved-from guard owns a mutex", false); break;
        case 5: expect(1, a, "move assignment does not transfer the ownership"); expect(0, G{ 0, 0, 0 }, "a moved-from guard owns a mutex", false); break;
        case 6: expect(0, b, "swap does not exchange the guards"); expect(1, a, "swap does not exchange the guards"); break;
        case 7: expect(2, a, "move construction does not transfer the ownership"); expect(0, G{ 0, 0, 0 }, "a moved-from guard owns a mutex", false); expect(1, b, "another guard is affected"); break;
        case 8: expect(0, G{ 0, 0, 0 }, "a moved-from guard owns a mutex", false); expect(1, b, "another guard is affected"); break;
        case 9: expect(0, p[0], "an operation that failed or should change nothing changes the guard"); expect(1, b, "another guard is affected"); break;
        case 12: expect(0, x, "swap does not exchange the guards"); expect(2, a, "swap does not exchange the guards"); break;
        case 11:
        case 13:
            expect(0, a, "a query changes the guard");
            if (op == 13 && ret != (a.o ? 1 : 0))
                bad("owns_lock() returns something else than whether the guard owns its mutex", CB);
            if (op == 11 && ret != 0)
                bad("switch_to_unique() of a guard that has no shared mode reports a change", CB);
            break;
        case 20: expect(0, G{ a.m, 0, 1 }, "lock_shared() returns without owning the guard's mutex in shared mode"); expect(1, b, "another guard is affected"); break;
        case 21: expect(0, G{ a.m, a.o, 0 }, "unlock_shared() leaves the guard owning, or changes its mutex"); expect(1, b, "another guard is affected"); break;
        case 22:
            expect(0, G{ a.m, 1, 0 }, "switch_to_unique() does not turn shared into exclusive ownership");
            if (ret != 1)
                bad("switch_to_unique() reports that nothing changed", CB);
            expect(1, b, "another guard is affected");
            break;
        case 23: expect(1, b, "another guard is affected"); break;
        case 30: expect(0, G{ 0, 0, 0 }, "a default-constructed guard owns a mutex"); break;
        case 31: expect(0, rw ? G{ 1, 0, 1 } : G{ 1, 1, 0 }, "the locking constructor returns without owning the mutex"); break;
        case 32: expect(0, G{ 1, 1, 0 }, "an adopting guard does not own the mutex"); break;
        case 33: expect(0, G{ 1, 0, 0 }, "a deferring guard owns the mutex"); break;
        case 34: expect(0, G{ 1, c.ps.get(kHeld[0]) ? 1 : 0, 0 }, "a try-to-lock guard misreports whether it got the mutex"); break;
        case 40: case 50: break;
        default: C.R.errors.push_back("guard witness: unknown state code in " + C.op.name);
        }
        for (int i = 0; i < 3; ++i) {
            c.ps.set(kSh[i][0], g[i].m < 0 ? 3 : g[i].m);
            c.ps.set(kSh[i][1], g[i].o < 0 ? 2 : g[i].o);
            c.ps.set(kSh[i][2], g[i].s < 0 ? 2 : g[i].s);
        }
    }
    void onThrowExit(const Instruction* I, FlowCtx& c) override {
        C.R.count("C06.obligations");
        for (int i = 0; i < 2; ++i)
            if (c.ps.get(kHeld[i]))
                bad("an exception leaves a mutex held without a guard", I);
    }
};
void run(ACtx& c) {
    if (!c.op.has("guard"))
        return;
    c.R.count("C06.ops");
    c.R.opsPerRule["guard"].insert(c.op.name);
    GuardRule r(c);
    FlowStats st;
    if (!runFlow(c.F, r, st))
        c.R.errors.push_back("state budget exceeded in " + c.op.name);
}
RuleReg reg("guard", run);
} // namespace
