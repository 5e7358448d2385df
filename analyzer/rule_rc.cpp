// The reference-count policies (C23): one atomic update per change, deletion exactly by the drop to zero, ordered after all other drops.
#include "rules.h"

namespace {
bool acquires(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
bool releases(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }

class RcRule : public Rule {
public:
    ACtx&       C;
    std::string kind;
    bool        ts;
    int64_t     old; // assumed count before the drop (0: unknown)
    int         kUpd = intern("rc:upd"), kSync = intern("rc:sync"), kDel = intern("rc:del"), kZero = intern("rc:zero"), kRead = intern("rc:read");
    RcRule(ACtx& c, int64_t o)
        : C(c)
        , kind(c.op.get("rc"))
        , ts(c.op.num("ts") != 0)
        , old(o) {}
    bool onObject(const Value* p, const Env& env, int* which = nullptr) {
        Roots r;
        rootsOf(p, env, r, true);
        for (unsigned i = 0; i < C.F.arg_size(); ++i)
            if (r.direct.count(C.F.getArg(i))) {
                if (which)
                    *which = (int)i;
                return true;
            }
        return false;
    }
    void bad(const std::string& m, const Instruction* I) { C.R.violate("C23", C.op.name, m, whereOf(I)); }
    void assume(const Instruction* I, FlowCtx& c) {
        if (old)
            c.env.f[I] = AV{ AV::Const, old, nullptr };
    }
    void onInst(const Instruction* I, FlowCtx& c) override {
        int w = -1;
        if (auto* A = dyn_cast<AtomicRMWInst>(I)) {
            if (!onObject(A->getPointerOperand(), c.env, &w))
                return;
            C.R.count("C23.obligations");
            auto k  = c.env.evalInt(A->getValOperand());
            int  d  = 0;
            if (k && (*k == 1 || *k == -1 || *k == 0xffffffffLL)) {
                int s = *k == 1 ? 1 : -1;
                if (A->getOperation() == AtomicRMWInst::Add)
                    d = s;
                else if (A->getOperation() == AtomicRMWInst::Sub)
                    d = -s;
            }
            if (d != (kind == "add" ? 1 : kind == "release" ? -1 : 0))
                bad("the count is not changed by exactly one", I);
            c.ps.bump(kUpd);
            if (kind == "release") {
                if (!releases(A->getOrdering()))
                    bad("dropping a reference does not release this thread's earlier uses of the object", I);
                if (acquires(A->getOrdering()))
                    c.ps.set(kSync, 1);
            }
            assume(I, c);
            return;
        }
        if (isa<AtomicCmpXchgInst>(I) && onObject(I->getOperand(0), c.env)) {
            bad("the count is changed by a conditional exchange, which the analysis does not accept as one update", I);
            return;
        }
        if (auto* F = dyn_cast<FenceInst>(I)) {
            if (c.ps.get(kUpd) && acquires(F->getOrdering()))
                c.ps.set(kSync, 1);
            return;
        }
        if (auto* L = dyn_cast<LoadInst>(I)) {
            if (!onObject(L->getPointerOperand(), c.env, &w))
                return;
            C.R.count("C23.obligations");
            if (kind == "ctor" || kind == "assign") {
                if (L->getType()->isIntegerTy())
                    bad("copying an object reads a reference count", I);
            } else if (ts && L->getType()->isIntegerTy()) {
                if (!L->isAtomic())
                    bad("the thread-safe count is read without an atomic operation", I);
                else if (acquires(L->getOrdering()) && c.ps.get(kUpd))
                    c.ps.set(kSync, 1);
            }
            c.ps.bump(kRead);
            if (!ts && !c.ps.get(kUpd))
                assume(I, c);
            if (ts && old && c.ps.get(kUpd) && c.ps.get(kDel)) // re-reading after deletion
                bad("the count is read after the object was deleted", I);
            return;
        }
        if (auto* S = dyn_cast<StoreInst>(I)) {
            if (!onObject(S->getPointerOperand(), c.env, &w))
                return;
            C.R.count("C23.obligations");
            if (kind == "ctor") {
                if (w == 0) {
                    auto k = c.env.evalInt(S->getValueOperand());
                    if (S->getValueOperand()->getType()->isIntegerTy(32)) {
                        if (k && *k == 0)
                            c.ps.set(kZero, 1);
                        else
                            bad("a new object does not start with a reference count of zero", I);
                    }
                } else
                    bad("copying an object writes the source's reference count", I);
            } else if (kind == "assign")
                bad("assigning an object writes a reference count", I);
            else if (ts)
                bad("the thread-safe count is written without an atomic read-modify-write", I);
            else {
                c.ps.bump(kUpd);
                auto  k = c.env.evalInt(S->getValueOperand());
                long  d = kind == "add" ? 1 : -1;
                if (old && (!k || (uint32_t)*k != (uint32_t)(old + d)))
                    bad("the count is not changed by exactly one", I);
            }
            return;
        }
        if (auto* CB = dyn_cast<CallBase>(I)) {
            auto n = calleeName(CB);
            if (n == "w_objdtor__W") {
                C.R.count("C23.obligations");
                c.ps.bump(kDel);
                if (kind != "release")
                    bad("the object is deleted by an operation that does not drop a reference", I);
                if (!c.ps.get(kUpd))
                    bad("the object is deleted before the reference is dropped", I);
                if (ts && !c.ps.get(kSync))
                    bad("deleting the object is not ordered after the other threads' last uses (no acquire)", I);
                if (c.ps.get(kDel) > 1)
                    bad("the object is deleted twice", I);
            }
        }
    }
    void onRet(const ReturnInst* R, FlowCtx& c) override {
        C.R.count("C23.obligations");
        if (kind == "add" || kind == "release") {
            if (c.ps.get(kUpd) != 1)
                bad("the count is not updated exactly once", R);
            if (kind == "release" && old) {
                if (old == 1 && !c.ps.get(kDel) && !nullGuard)
                    bad("dropping the last reference does not delete the object", R);
                if (old != 1 && c.ps.get(kDel))
                    bad("the object is deleted although references remain", R);
            }
        }
        if (kind == "ctor" && !c.ps.get(kZero))
            bad("a new object does not start with a reference count of zero", R);
        if (kind == "use") {
            if (c.ps.get(kUpd))
                bad("querying the count changes it", R);
            if (!c.ps.get(kRead))
                bad("the reported count is not read from the object", R);
        }
    }
    bool nullGuard = false;
    // "delete p" tests p for null; the object exists
    std::optional<bool> evalEq(const Value* a, const Value* b, const Env& env, const PS&) override {
        for (int s = 0; s < 2; ++s, std::swap(a, b))
            if (isa<Argument>(env.resolve(a)) && isa<ConstantPointerNull>(env.resolve(b)))
                return false;
        return std::nullopt;
    }
};

void run(ACtx& c) {
    if (!c.op.has("rc"))
        return;
    c.R.count("C23.ops");
    for (int64_t old : { 1L, 2L, 3L, 4L, 5L, 8L, 100L, 0x7fffffffL, 0x80000000L, 0xffffffffL }) {
        RcRule    r(c, old);
        FlowStats st;
        if (!runFlow(c.F, r, st))
            c.R.errors.push_back("state budget exceeded in " + c.op.name);
        if (c.op.get("rc") != "release" && c.op.get("rc") != "add")
            break;
    }
}
RuleReg reg("rc", run);
} // namespace
