// Effects: const operations write nothing shared (C07); no operation writes global storage (C08).
#include "rules.h"

namespace {
// functions whose hidden state would be shared between containers and threads
bool hiddenState(const std::string& n) {
    static const std::set<std::string> s{ "rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "strtok", "localtime", "gmtime",
                                          "ctime", "asctime", "strerror", "setlocale", "getenv", "setenv", "putenv" };
    return s.count(n) != 0;
}
class EffectRule : public Rule {
public:
    ACtx&                  C;
    std::set<const Value*> out;
    bool                   ro;
    explicit EffectRule(ACtx& c)
        : C(c)
        , out(argSet(c, "out"))
        , ro(c.op.has("shared")) {}
    void onInst(const Instruction* I, FlowCtx& c) override {
        if (auto* CB = dyn_cast<CallBase>(I)) {
            std::string n = calleeName(CB);
            if (hiddenState(n))
                C.R.violate("C08", C.op.name, "calls " + n + "(), which keeps hidden global state", whereOf(I));
        }
        std::vector<Access> acc;
        accessesOf(I, acc);
        for (auto& a : acc) {
            if (!a.write)
                continue;
            Roots r;
            rootsOf(a.ptr, c.env, r, true);
            C.R.count("C08.obligations");
            for (auto* v : r.direct)
                if (auto* G = dyn_cast<GlobalVariable>(v))
                    if (owned(G) && !benign(I, a.ptr))
                        C.R.violate("C08", C.op.name, "writes global storage (" + G->getName().str() + ")", whereOf(I));
            for (auto* v : r.deep)
                if (auto* G = dyn_cast<GlobalVariable>(v))
                    if (owned(G))
                        C.R.violate("C08", C.op.name, "writes memory reached through global storage (" + G->getName().str() + ")", whereOf(I));
            if (!ro)
                continue;
            C.R.count("C07.obligations");
            // everything that is not a local variable or freshly allocated memory is shared with other readers
            for (auto* set : { &r.direct, &r.deep })
                for (auto* v : *set) {
                    if (isa<AllocaInst>(v) || isAllocCall(v) || (isa<Argument>(v) && out.count(v)))
                        continue;
                    if (auto* G = dyn_cast<GlobalVariable>(v)) {
                        if (owned(G) && !benign(I, a.ptr))
                            C.R.violate("C07", C.op.name, "a read-only operation writes global storage (" + G->getName().str() + ")", whereOf(I));
                        continue;
                    }
                    if (isa<Argument>(v) && !mutexOf(I))
                        C.R.violate("C07", C.op.name, "a read-only operation writes memory of an object it was given", whereOf(I));
                }
        }
    }
    // storage defined by the analysed headers that is not thread-local; writing constants is impossible (they are the
    // infeasible alternatives of a merge), and declarations are objects of the C++ runtime such as std::cerr
    static bool owned(const GlobalVariable* G) { return !G->isThreadLocal() && !G->isConstant() && !G->isDeclaration(); }
    static bool mutexOf(const Instruction* I) { return isLockFn(calleeName(I)); }
    static bool benign(const Instruction* I, const Value*) {
        auto n = calleeName(I);
        return n.compare(0, 12, "__cxa_guard_") == 0;
    }
};

void run(ACtx& c) {
    EffectRule r(c);
    FlowStats  st;
    c.R.count("C07.ops", c.op.has("shared"));
    c.R.count("C08.ops");
    if (!runFlow(c.F, r, st, 400000))
        c.R.errors.push_back("state budget exceeded in " + c.op.name);
}
RuleReg reg("effects", run);
} // namespace
