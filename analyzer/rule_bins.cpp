// Insertions into ordered containers with unique keys (C12): on every path either exactly one element is constructed inside
// the container and the result says so, or nothing is consumed, constructed, destroyed or written and the result says so.
#include "rules.h"

namespace {
class BinsRule : public Rule {
public:
    ACtx&                  C;
    std::set<const Value*> cont, args;
    bool                   tmp, node;
    std::string            ret;
    int kCons = intern("bi:cons"), kTouch = intern("bi:touch"), kHdr = intern("bi:hdr"), kAlloc = intern("bi:alloc"), kGone = intern("bi:gone");
    std::map<int, const Instruction*> at;
    explicit BinsRule(ACtx& c)
        : C(c)
        , cont(argSet(c, "cont"))
        , args(argSet(c, "args")) {
        tmp  = c.op.has("tmp");
        node = c.op.has("nodeins");
        ret  = c.op.get("ret_");
    }
    void bad(const std::string& m, const Instruction* I) { C.R.violate("C12", C.op.name, m, whereOf(I)); }
    enum Where { Arg, Local, Header, Fresh, Tree };
    Where whereIs(const Value* p, const Env& env) {
        Roots r;
        rootsOf(p, env, r);
        bool arg = false, local = false, hdr = false, fresh = false, tree = !r.deep.empty() || r.unknown;
        for (auto* v : r.direct)
            if (args.count(v))
                arg = true;
            else if (cont.count(v))
                hdr = true;
            else if (isa<AllocaInst>(v))
                local = true;
            else if (isAllocCall(v))
                fresh = true;
            else if (!isa<Constant>(v))
                tree = true;
        return tree ? Tree : hdr ? Header : fresh ? Fresh : arg ? Arg : local ? Local : Tree;
    }
    void touch(const Instruction* I, FlowCtx& c) {
        if (!c.ps.get(kTouch)) {
            int id = intern("bi:at" + std::to_string((uintptr_t)I));
            at[id] = I;
            c.ps.set(kTouch, id);
        }
    }
    void onInst(const Instruction* I, FlowCtx& c) override {
        if (auto* CB = dyn_cast<CallBase>(I)) {
            std::string n = calleeName(CB);
            if (isAllocCall(CB)) {
                c.ps.set(kAlloc, 1);
                return;
            }
            if (Elem e = elemOf(CB); e.is) {
                Where d = whereIs(e.dst, c.env), s = e.src ? whereIs(e.src, c.env) : Local;
                bool  in = d == Tree || d == Fresh, from = s == Arg || s == Local;
                if (e.construct && in && from) {
                    if (e.key) {
                        c.ps.bump(kCons);
                        if (c.ps.get(kCons) > 1)
                            bad("may insert more than one element", I);
                    }
                    touch(I, c);
                } else if (in || (e.src && !from))
                    touch(I, c);
                else if (d == Arg || s == Arg) {
                    if (!tmp || e.move)
                        touch(I, c);
                } else if (!tmp)
                    touch(I, c); // an element is built outside the container
                return;
            }
            if (auto* F = CB->getCalledFunction(); F && !F->isDeclaration()) {
                touch(I, c); // an out-of-line helper that restructures the tree
                return;
            }
        }
        std::vector<Access> acc;
        accessesOf(I, acc);
        for (auto& a : acc)
            if (a.write) {
                Where w = whereIs(a.ptr, c.env);
                if (w == Header) {
                    if (!c.ps.get(kAlloc))
                        touch(I, c);
                } else if (w == Tree || (w == Arg && !tmp))
                    touch(I, c);
            }
    }
    void onRet(const ReturnInst* R, FlowCtx& c) override {
        C.R.count("C12.obligations");
        int                 cons = c.ps.get(kCons);
        std::optional<bool> t;
        if (auto* rv = R->getReturnValue(); rv && ret == "inserted") {
            t = truth(rv, c.env);
            if (!t || *t != (cons == 1))
                bad("the result does not tell truthfully whether an element was inserted", R);
        }
        if (!cons && c.ps.get(kTouch))
            bad("nothing is inserted, yet an argument is consumed, an element is constructed or destroyed, or the container is written", at[c.ps.get(kTouch)]);
    }
};
void run(ACtx& c) {
    if (!c.op.has("bins") || !c.op.has("uniq"))
        return;
    c.R.count("C12.ops");
    BinsRule  r(c);
    FlowStats st;
    if (!runFlow(c.F, r, st))
        c.R.errors.push_back("state budget exceeded in " + c.op.name);
}
RuleReg reg("bins", run);
} // namespace
