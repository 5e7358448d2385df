// Element lifetimes during relocation: stable nodes (C16), relocation by move only (C17), whole-container moves (C18),
// heterogeneous lookup (C19).
#include "rules.h"

namespace {
std::string num(const Value* v) { return std::to_string((uintptr_t)v); }

class ElemRule : public Rule {
public:
    ACtx&                  C;
    std::string            fam;
    std::set<const Value*> cont;
    std::string            fam2 = C.op.get("fam2");
    bool                   er, copies, assigns, node, whole, hetero;
    int                    kPend = intern("el:pend");
    std::map<int, std::vector<const Value*>> pend;
    explicit ElemRule(ACtx& c)
        : C(c)
        , fam(c.op.get("fam"))
        , cont(argSet(c, "cont")) {
        auto& o = c.op;
        er      = (o.has("er") && !(o.has("ext"))) || o.has("toggle") || o.has("moveassign") || o.has("copyassign") || o.get("ret_") == "erased" || o.get("whole") == "1" || o.has("loadop");
        copies  = o.has("copyop") || o.has("copyassign");
        assigns = o.has("assign") || o.has("copyassign");
        node    = fam == "node";
        whole   = o.has("movector") || o.has("swapop");
        hetero  = o.has("het");
        if (auto* F = c.M.getFunction("op_size"); F && !F->isDeclaration())
            for (auto& I : instructions(*F))
                if (auto* R = dyn_cast<ReturnInst>(&I); R && R->getReturnValue())
                    if (auto* L = dyn_cast<LoadInst>(R->getReturnValue())) {
                        Env e(c.M.getDataLayout());
                        Lin l = e.lin(L->getPointerOperand());
                        if (l.base == F->getArg(0) && l.terms.empty())
                            sizeOff = l.off;
                    }
    }
    // the operation's container is known to hold no element on this path
    bool knownEmpty(const Env& env) {
        if (sizeOff < 0)
            return false;
        for (auto& f : env.f) {
            auto* L = dyn_cast<LoadInst>(f.first);
            if (!L || f.second.k != AV::Const || f.second.c != 0)
                continue;
            Lin l = env.lin(L->getPointerOperand());
            if (cont.count(l.base) && l.terms.empty() && l.off == sizeOff)
                return true;
        }
        return false;
    }
    int64_t sizeOff = -1;
    bool inCont(const Value* p, const Env& env, bool* only = nullptr) {
        Roots r;
        rootsOf(p, env, r, true);
        if (only)
            *only = !r.unknown && r.direct.size() + r.deep.size() == 1;
        return r.has(cont);
    }
    const Value* localOf(const Value* p, const Env& env) {
        Roots r;
        rootsOf(p, env, r, true);
        for (auto* v : r.direct)
            if (isa<AllocaInst>(v))
                return v;
        return nullptr;
    }
    void bad(const char* prop, const std::string& m, const Instruction* I) { C.R.violate(prop, C.op.name, m, whereOf(I)); }
    void onInst(const Instruction* I, FlowCtx& c) override {
        auto* CB = dyn_cast<CallBase>(I);
        if (!CB)
            return;
        std::string n = calleeName(CB);
        Elem        e = elemOf(CB);
        if (e.is) {
            if (hetero) {
                C.R.count("C19.obligations");
                bool own = fam2 == "btree" && e.move && e.src && inCont(e.src, c.env); // shifts neighbours when erasing
                if ((e.construct || e.assign) && !own)
                    bad("C19", "a lookup by a foreign key constructs a key or value", I);
            }
            bool dc = inCont(e.dst, c.env), sc = e.src && inCont(e.src, c.env);
            if (node && !cont.empty()) {
                C.R.count("C16.obligations");
                if (e.destroy) {
                    if (dc && !er && !knownEmpty(c.env))
                        bad("C16", "destroys an element that stays in the container", I);
                } else if (e.assign) {
                    if (dc && !(assigns && !e.key))
                        bad("C16", "assigns to an element of the container", I);
                    if (sc && !copies)
                        bad("C16", "moves or copies from an element of the container", I);
                } else {
                    if (dc && !freshOnly(e.dst, c.env))
                        bad("C16", "constructs an element in memory the container already owns", I);
                    if (sc && !(copies && e.copy))
                        bad("C16", "moves or copies an element of the container to another address", I);
                }
            }
            if (fam == "flat" || fam == "btree" || fam == "vector")
                relocation(I, e, dc, sc, c);
        } else if (node && !cont.empty()) {
            const Value* p = nullptr;
            if (isFreeCall(CB, &p) && p) {
                C.R.count("C16.obligations");
                std::vector<Home> hs;
                homesOf(p, c.env, hs);
                for (auto& h : hs)
                    if (cont.count(h.root) && h.depth >= 2 && !er && !knownEmpty(c.env))
                        bad("C16", "releases the memory of an element that stays in the container", I);
            }
        }
        if (hetero) {
            C.R.count("C19.obligations");
            if (isAllocCall(CB))
                bad("C19", "a lookup by a foreign key allocates memory", I);
        }
    }
    bool freshOnly(const Value* p, const Env& env) {
        Roots r;
        rootsOf(p, env, r, true);
        for (auto* v : r.direct)
            if (isAllocCall(v))
                return true;
        return false;
    }
    int taint(const Value* local) { return intern("el:taint" + num(local)); }
    void relocation(const Instruction* I, const Elem& e, bool dc, bool sc, FlowCtx& c) {
        if (copies || C.op.has("shared") || cont.empty() || (fam == "vector" && C.consts.count("w_user_alloc")))
            return;
        if (fam == "btree" && C.op.has("mergeop"))
            return;
        if (e.copy) {
            C.R.count("C17.obligations");
            if (sc)
                bad("C17", "copies an existing element", I);
            else if (auto* L = localOf(e.src, c.env); L && c.ps.get(taint(L)))
                bad("C17", "copies an existing element by way of a temporary", I);
        }
        if (e.move && e.src) {
            C.R.count("C17.obligations");
            if (auto* L = localOf(e.dst, c.env))
                c.ps.set(taint(L), sc ? 1 : 0);
        }
        // hash tables move one element at a time: the source must be destroyed before anything else is moved
        if (fam != "flat")
            return;
        if (e.construct && e.move && sc) {
            int id    = intern("el:p" + num(e.src) + (e.key ? "k" : "v"));
            int k     = e.key ? kPendK : kPendV;
            pend[id]  = { e.src };
            if (c.ps.get(k))
                bad("C17", "moves an element while the one moved before it has not been destroyed at its old place", I);
            c.ps.set(k, id);
        } else if (e.destroy && dc) {
            int k  = e.key ? kPendK : kPendV;
            int id = c.ps.get(k);
            if (id && samePlace(pend[id][0], e.dst, c.env))
                c.ps.set(k, 0);
        }
    }
    int  kPendK = intern("el:pendk"), kPendV = intern("el:pendv");
    void leave(const Instruction* I, FlowCtx& c) {
        if (c.ps.get(kPendK) || c.ps.get(kPendV))
            bad("C17", "an element was moved to a new place but the old one is not destroyed", I);
    }
    void onRet(const ReturnInst* R, FlowCtx& c) override { leave(R, c); }
    void onThrowExit(const Instruction* I, FlowCtx& c) override { leave(I, c); }
};

void run(ACtx& c) {
    if (c.op.get("swapop") == "2") // std::swap on most containers: a move construction and two move assignments
        return;
    ElemRule  r(c);
    FlowStats st;
    if (r.node)
        c.R.count("C16.ops");
    if (!runFlow(c.F, r, st, 400000))
        c.R.errors.push_back("state budget exceeded in " + c.op.name);
}
RuleReg reg("elems", run);
} // namespace
