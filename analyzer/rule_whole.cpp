// Whole-container moves and swaps (C18): every byte of state the default constructor sets up is exchanged or handed over,
// nothing else happens.
#include "rules.h"

namespace {
// symbolic memory, byte by byte: what each byte of the operands holds on this path
class WholeRule : public Rule {
public:
    ACtx&                C;
    const Function&      F;
    std::map<std::pair<int, int64_t>, int> dflt; // byte -> token after default construction (base 0)
    bool                 collect;
    std::map<int64_t, int>* outp;
    explicit WholeRule(ACtx& c, const Function& f, std::map<int64_t, int>* out)
        : C(c)
        , F(f)
        , collect(out != nullptr)
        , outp(out) {}
    int baseId(const Value* b) {
        if (auto* A = dyn_cast<Argument>(b))
            return A->getArgNo();
        if (isa<AllocaInst>(b))
            return 1000 + intern("wa:" + std::to_string((uintptr_t)b));
        return -1;
    }
    int cell(int base, int64_t off) { return intern("wc:" + std::to_string(base) + ":" + std::to_string(off)); }
    int initTok(int base, int64_t off) { return intern("wi:" + std::to_string(base) + ":" + std::to_string(off)); }
    int constTok(int b) { return intern("wk:" + std::to_string(b & 255)); }
    int valCell(const Value* v, int64_t i) { return intern("wv:" + std::to_string((uintptr_t)v) + ":" + std::to_string(i)); }
    int readByte(int base, int64_t off, FlowCtx& c) {
        int t = c.ps.get(cell(base, off));
        return t ? t : initTok(base, off);
    }
    int64_t sizeOf(const Value* v) { return F.getParent()->getDataLayout().getTypeStoreSize(v->getType()); }
    int byteOf(const Value* v, int64_t i, FlowCtx& c) {
        v = c.env.resolve(v);
        if (int t = c.ps.get(valCell(v, i)))
            return t;
        if (isa<ConstantPointerNull>(v))
            return constTok(0);
        if (auto* G = dyn_cast<GlobalValue>(v))
            return intern("wg:" + G->getName().str() + ":" + std::to_string(i));
        if (auto k = c.env.evalInt(v))
            return constTok(i < 8 ? (int)((uint64_t)*k >> (8 * i)) : (*k < 0 ? 255 : 0));
        Lin l = v->getType()->isPointerTy() ? c.env.lin(v) : Lin();
        if (l.base && isa<GlobalValue>(l.base) && l.terms.empty())
            return intern("wg:" + l.base->getName().str() + "+" + std::to_string(l.off) + ":" + std::to_string(i));
        return intern("wx:" + std::to_string((uintptr_t)v) + ":" + std::to_string(i));
    }
    bool place(const Value* p, FlowCtx& c, int& base, int64_t& off) {
        Lin l = c.env.lin(p);
        if (!l.base || !l.terms.empty())
            return false;
        base = baseId(l.base);
        off  = l.off;
        return base >= 0;
    }
    // the two containers are different objects
    std::optional<bool> evalEq(const Value* a, const Value* b, const Env& env, const PS&) override {
        if (!a->getType()->isPointerTy())
            return std::nullopt;
        Lin x = env.lin(a), y = env.lin(b);
        if (x.base != y.base && isa<Argument>(x.base) && isa<Argument>(y.base))
            return false;
        return std::nullopt;
    }
    void bad(const std::string& m, const Instruction* I) { C.R.violate("C18", C.op.name, m, whereOf(I)); }
    void onInst(const Instruction* I, FlowCtx& c) override {
        int     b, b2;
        int64_t o, o2;
        if (auto* L = dyn_cast<LoadInst>(I)) {
            int64_t n = sizeOf(L);
            for (int64_t i = 0; i < n; ++i)
                c.ps.set(valCell(L, i), place(L->getPointerOperand(), c, b, o) ? readByte(b, o + i, c) : 0);
            return;
        }
        if (auto* S = dyn_cast<StoreInst>(I)) {
            if (place(S->getPointerOperand(), c, b, o)) {
                int64_t n = sizeOf(S->getValueOperand());
                for (int64_t i = 0; i < n; ++i)
                    c.ps.set(cell(b, o + i), byteOf(S->getValueOperand(), i, c));
            }
            return;
        }
        if (auto* M = dyn_cast<AnyMemIntrinsic>(I)) {
            auto k = c.env.evalInt(M->getLength());
            if (!k || !place(M->getRawDest(), c, b, o))
                return;
            std::vector<int> t;
            if (auto* MT = dyn_cast<AnyMemTransferInst>(M)) {
                if (!place(MT->getRawSource(), c, b2, o2))
                    return;
                for (int64_t i = 0; i < *k; ++i)
                    t.push_back(readByte(b2, o2 + i, c));
            } else {
                auto v = c.env.evalInt(cast<AnyMemSetInst>(M)->getValue());
                for (int64_t i = 0; i < *k; ++i)
                    t.push_back(v ? constTok((int)*v) : intern("wx:set"));
            }
            for (int64_t i = 0; i < *k; ++i)
                c.ps.set(cell(b, o + i), t[i]);
            return;
        }
        auto* CB = dyn_cast<CallBase>(I);
        if (!CB || collect || C.op.has("moveassign") || C.op.has("viatemp"))
            return;
        std::string n = calleeName(CB);
        C.R.count("C18.obligations");
        if (elemOf(CB).is)
            bad("constructs, assigns or destroys an element", I);
        else if (isAllocCall(CB) || isFreeCall(CB))
            bad("allocates or releases memory", I);
        else if (n == "w_eq__RR" || n == "w_hash__R" || n == "w_less__RR" || n == "w_veq__RR")
            bad("hashes or compares elements", I);
    }
    static bool functor(int64_t, const std::map<int64_t, int>& d, int64_t o) { // bytes the witness' stateful functors set
        auto it = d.find(o);
        return it != d.end() && internName(it->second).rfind("wk:", 0) == 0 && [&] {
            int v = std::stoi(internName(it->second).substr(3));
            return v == 0xA5;
        }();
    }
    std::map<int64_t, int> def;
    std::set<int64_t>      lenient;
    void onRet(const ReturnInst* R, FlowCtx& c) override {
        if (collect) {
            for (int64_t o = 0; o < 4096; ++o)
                if (int t = c.ps.get(cell(0, o))) {
                    auto& r = (*outp)[o];
                    r       = t;
                }
            return;
        }
        if (C.op.has("nowords"))
            return;
        bool sw = C.op.has("swapop"), ma = C.op.has("moveassign");
        int  src = sw || ma ? 1 : 0, dst = sw || ma ? 0 : (int)C.op.num("out", 1);
        for (auto& d : def) {
            int64_t o = d.first;
            C.R.count("C18.obligations");
            if (readByte(dst, o, c) != initTok(src, o)) {
                bad(sw ? "the first container does not receive the whole state of the second (byte " + std::to_string(o) + ")"
                   : ma ? "the assigned container does not receive the whole state of the source (byte " + std::to_string(o) + ")"
                       : "the new container does not receive the whole state of the source (byte " + std::to_string(o) + ")",
                    R);
                return;
            }
            int t = readByte(src, o, c);
            if (ma) { // the source may be left empty or with the old content of the target, but not as it was
                if (t == initTok(src, o) && !functor(0, def, o) && !lenient.count(o)) {
                    bad("the source of the assignment keeps part of the state it gave away (byte " + std::to_string(o) + ")", R);
                    return;
                }
                continue;
            }
            if (sw) {
                if (t != initTok(dst, o)) {
                    bad("the second container does not receive the whole state of the first (byte " + std::to_string(o) + ")", R);
                    return;
                }
            } else if (t != d.second && !(functor(0, def, o) && t == initTok(src, o)) && !lenient.count(o)) {
                bad("the source is not left as an empty container (byte " + std::to_string(o) + ")", R);
                return;
            }
        }
    }
    void onThrowExit(const Instruction* I, FlowCtx&) override {
        if (!collect && !C.op.has("nowords") && !C.op.has("moveassign"))
            bad("may throw", I);
    }
};

void run(ACtx& c) {
    if (c.op.get("swapop") == "2" || !(c.op.has("movector") || c.op.has("swapop") || c.op.has("moveassign")))
        return;
    std::map<int64_t, int> def;
    WholeRule              r(c, c.F, nullptr);
    FlowStats              st;
    if (!c.op.has("nowords")) {
        const Function* D = c.M.getFunction("op_default_ctor");
        if (!D || D->isDeclaration()) {
            c.R.errors.push_back("no default constructor to compare with");
            return;
        }
        WholeRule d(c, *D, &def);
        if (!runFlow(*D, d, st) || def.empty()) {
            c.R.errors.push_back("the default constructor's effect could not be determined");
            return;
        }
        // a null pointer next to a capacity word: with capacity 0 its value does not matter
        if (auto* Q = c.M.getFunction("op_capacity"); Q && !Q->isDeclaration())
            for (auto& I : instructions(*Q))
                if (auto* R = dyn_cast<ReturnInst>(&I); R && R->getReturnValue())
                    if (auto* L = dyn_cast<LoadInst>(R->getReturnValue())) {
                        Env e(c.M.getDataLayout());
                        Lin l = e.lin(L->getPointerOperand());
                        if (l.base == Q->getArg(0) && l.terms.empty()) {
                            // pointers stored by the default constructor as null
                            for (auto& J : instructions(*D))
                                if (auto* S = dyn_cast<StoreInst>(&J); S && isa<ConstantPointerNull>(S->getValueOperand())) {
                                    Lin s = e.lin(S->getPointerOperand());
                                    if (s.base == D->getArg(0) && s.terms.empty())
                                        for (int i = 0; i < 8; ++i)
                                            r.lenient.insert(s.off + i);
                                }
                        }
                    }
    }
    r.def = def;
    if (!runFlow(c.F, r, st))
        c.R.errors.push_back("state budget exceeded in " + c.op.name);
    c.R.count("C18.ops");
    c.R.count("C18.state_bytes", def.size());
}
RuleReg reg("whole", run);
} // namespace
