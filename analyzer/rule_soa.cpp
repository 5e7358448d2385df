// Struct of arrays (C29): every operation acts on all columns alike, on every path including the ones that throw.
#include "rules.h"
#include "llvm/Analysis/LoopInfo.h"

namespace {
const int NCOL = 3;
class SoaRule : public Rule {
public:
    ACtx&                             C;
    const Value*                      cont;
    std::vector<std::string>          exp;   // rows: expected column of each hand-out
    int                               kDirty = intern("soa:dirty"), kPhase = intern("soa:phase"), kCb = intern("soa:cb"), kAny = intern("soa:any"), kReach = intern("soa:reach");
    std::map<const BasicBlock*, int>  entries; // where the permuting of a column begins
    std::set<const BasicBlock*>       clears; // blocks after which scratch marks are gone
    std::map<int, std::set<std::string>> sortKinds;
    std::set<std::string>             reserves[NCOL];
    std::map<const Value*, int>       names;
    SoaRule(ACtx& c)
        : C(c)
        , cont(c.F.getArg((unsigned)c.op.num("cont"))) {
        findClears();
    }
    int kSeq(int col) { return intern("soa:seq" + std::to_string(col)); }
    void bad(const std::string& m, const Instruction* I) { C.R.violate("C29", C.op.name, m, whereOf(I)); }
    static std::string colName(int c) { return "column " + std::to_string(c); }
    int colOf(const CallBase* CB) {
        auto* c = dyn_cast<ConstantInt>(CB->getArgOperand(CB->arg_size() - 1));
        int   k = c ? (int)c->getSExtValue() : -1;
        return k >= 0 && k < NCOL ? k : -1;
    }
    bool ours(const Value* p, FlowCtx& c) {
        Roots r;
        rootsOf(p, c.env, r, true);
        return r.direct.count(cont) != 0;
    }
    // zero, or what was there with bits removed
    static bool clearing(const Value* v) {
        if (auto* k = dyn_cast<Constant>(v))
            return k->isNullValue();
        auto* b = dyn_cast<BinaryOperator>(v);
        return b && b->getOpcode() == Instruction::And && (isa<LoadInst>(b->getOperand(0)) || isa<LoadInst>(b->getOperand(1)));
    }
    // a zero fill of memory that outlives the loop: the block that decides whether to fill has seen to it
    void findClears() {
        DominatorTree DT(const_cast<Function&>(C.F));
        LoopInfo      LI(DT);
        if (C.op.has("soasortc"))
            for (auto& B : C.F)
                for (auto& I : B)
                    if (auto* CB = dyn_cast<CallBase>(&I))
                        if (std::string n = calleeName(CB); n.rfind("w_cmove", 0) == 0 || n.rfind("w_ccopy", 0) == 0)
                            if (int k = colOf(CB); k >= 0) {
                                auto* L = LI.getLoopFor(&B);
                                while (L && L->getParentLoop())
                                    L = L->getParentLoop();
                                entries[L ? L->getHeader() : &B] |= 1 << k;
                            }
        for (auto& B : C.F)
            for (auto& I : B) {
                bool z = false;
                if (auto* S = dyn_cast<StoreInst>(&I)) {
                    z = clearing(S->getValueOperand()) && LI.getLoopFor(&B);
                } else if (auto* M = dyn_cast<MemSetInst>(&I)) {
                    auto* k = dyn_cast<ConstantInt>(M->getValue());
                    z       = k && k->isZero();
                }
                if (!z)
                    continue;
                clears.insert(&B);
                if (auto* L = LI.getLoopFor(&B)) {
                    bool ev = false;
                    for (auto* X : L->blocks())
                        for (auto& J : *X)
                            if (auto* CB = dyn_cast<CallBase>(&J))
                                ev |= StringRef(calleeName(CB)).starts_with("w_col");
                    if (!ev) {
                        clears.insert(L->getHeader());
                        if (auto* D = DT.getNode(L->getHeader())->getIDom())
                            clears.insert(D->getBlock());
                        continue;
                    }
                }
                // "if (n) memset(...)"
                if (auto* D = DT.getNode(&B)->getIDom())
                    if (auto* br = dyn_cast<BranchInst>(D->getBlock()->getTerminator()); br && br->isConditional() && isa<ICmpInst>(br->getCondition()) && LI.getLoopFor(D->getBlock()) == LI.getLoopFor(&B))
                        clears.insert(D->getBlock());
            }
    }
    std::string val(const Value* v, FlowCtx& c) {
        if (auto k = c.env.evalInt(v))
            return std::to_string(*k);
        const Value* r = c.env.resolve(v);
        if (!names.count(r))
            names[r] = (int)names.size() + 1;
        return "v" + std::to_string(names[r]);
    }
    void addSeq(int col, const std::string& e, FlowCtx& c) {
        std::string s = c.ps.get(kSeq(col)) ? internName(c.ps.get(kSeq(col))) : "";
        if (s.size() > 100 || (s.size() >= e.size() && s.substr(s.size() - e.size()) == e && e == "pop;"))
            return;
        c.ps.set(kSeq(col), intern(s + e));
        c.ps.set(kAny, 1);
    }
    std::string seq(int col, FlowCtx& c) { return c.ps.get(kSeq(col)) ? internName(c.ps.get(kSeq(col))) : ""; }
    void        trim(int col, const std::string& v, FlowCtx& c) {
        std::string s = seq(col, c);
        // "at most as long as the saved length" after any number of additions
        c.ps.set(kSeq(col), intern("len=" + v + ";"));
    }
    static bool isStruct(const std::string& k) {
        static const std::set<std::string> s = { "colpush", "colmove", "colemplace", "colclear", "colpop", "colresize", "colresizev", "colerase", "colinsert", "colassign", "colswap", "colcopy" };
        return s.count(k) != 0;
    }
    void onInst(const Instruction* I, FlowCtx& c) override {
        if (C.op.has("soasortc") && c.ps.get(kPhase) && !c.ps.get(kDirty))
            if (auto* S = dyn_cast<StoreInst>(I)) {
                Roots r;
                rootsOf(S->getPointerOperand(), c.env, r, true);
                if (!clearing(S->getValueOperand()) && (!r.deep.empty() || r.unknown))
                    c.ps.set(kDirty, c.ps.get(kPhase));
            }
        auto* CB = dyn_cast<CallBase>(I);
        if (!CB)
            return;
        if (isFreeCall(CB))
            c.ps.set(kDirty, 0);
        auto role = roleOf(CB);
        if (!role)
            return;
        const std::string& k = role->kind;
        if (StringRef(k).starts_with("col")) {
            int col = colOf(CB);
            if (col < 0 || !ours(CB->getArgOperand(0), c))
                return;
            C.R.count("C29.obligations");
            if (isStruct(k)) {
                if (C.op.has("soaread") || C.op.has("soarow"))
                    bad("an operation that only looks at the container changes " + colName(col), I);
                if ((k == "colresize" || k == "colerase") && saved.count(c.env.resolve(CB->getArgOperand(1))) && (k == "colresize" || !c.env.evalInt(CB->getArgOperand(2))))
                    trim(col, val(CB->getArgOperand(1), c), c), c.ps.set(kAny, 1);
                else if (k == "colresize")
                    addSeq(col, "resize " + val(CB->getArgOperand(1), c) + ";", c);
                else if (k == "colerase")
                    addSeq(col, "erase " + val(CB->getArgOperand(1), c) + " " + val(CB->getArgOperand(2), c) + ";", c);
                else if (k == "colinsert")
                    addSeq(col, "insert " + val(CB->getArgOperand(1), c) + ";", c);
                else if (k == "colassign" || k == "colresizev")
                    addSeq(col, k.substr(3) + " " + val(CB->getArgOperand(1), c) + ";", c);
                else if (k == "colpush" || k == "colmove" || k == "colemplace")
                    addSeq(col, "append;", c);
                else
                    addSeq(col, k.substr(3) + ";", c);
                if (C.op.has("soasortc"))
                    sortKinds[col].insert(k);
            } else if (k == "colreserve")
                reserves[col].insert(val(CB->getArgOperand(1), c));
            return;
        }
        if (C.op.has("soasortc") && (k == "cmove" || k == "cmoveassign" || k == "ccopy" || k == "ccopyassign" || k == "cinit")) {
            int col = colOf(CB);
            if (col < 0)
                return;
            C.R.count("C29.obligations");
            std::string what = k;
            if (k == "cmoveassign")
                what = inColumn(CB->getArgOperand(1)) ? "moved within the column" : "moved into the column";
            sortKinds[col].insert(what);
            int d = c.ps.get(kDirty);
            if (d && d != col + 1) {
                bad(colName(col) + " is permuted with the marks left from permuting " + colName(d - 1), I);
                c.ps.set(kDirty, 0);
            }
            c.ps.set(kPhase, col + 1);
            c.ps.set(kAny, 1);
        }
        if (C.op.has("soarow") && k == "cbr") {
            std::string want = C.op.get("soarow");
            int         n    = c.ps.get(kCb);
            c.ps.set(kCb, n + 1);
            C.R.count("C29.obligations");
            if (n >= (int)want.size())
                return;
            const Value* p  = c.env.resolve(CB->getArgOperand(0));
            auto*        at = dyn_cast<CallBase>(p);
            auto         ar = at ? roleOf(at) : std::nullopt;
            if (!ar || ar->kind != "colat") {
                bad("the row does not refer to the elements stored in the columns", I);
                return;
            }
            if (colOf(at) != want[n] - '0' || !ours(at->getArgOperand(0), c))
                bad("member " + std::to_string(n) + " of the row does not come from " + colName(want[n] - '0'), I);
            else if (c.env.resolve(at->getArgOperand(1)) != C.F.getArg(1))
                bad("the row mixes positions: " + colName(want[n] - '0') + " is not read at the position asked for", I);
        }
    }
    bool inColumn(const Value* p) {
        auto* a  = dyn_cast<CallBase>(p->stripPointerCasts());
        auto  ar = a ? roleOf(a) : std::nullopt;
        return ar && ar->kind == "colat";
    }
    void onEdge(const BasicBlock* from, const BasicBlock* to, FlowCtx& c) override {
        if (clears.count(from))
            c.ps.set(kDirty, 0);
        if (auto e = entries.find(to); e != entries.end())
            c.ps.set(kReach, c.ps.get(kReach) | e->second);
        // a test that shows a column to be no longer than a remembered length
        auto* br = dyn_cast<BranchInst>(from->getTerminator());
        if (!br || !br->isConditional())
            return;
        auto* cmp = dyn_cast<ICmpInst>(br->getCondition());
        if (!cmp)
            return;
        bool            taken = br->getSuccessor(0) == to;
        ICmpInst::Predicate p = taken ? cmp->getPredicate() : cmp->getInversePredicate();
        const Value *   a = cmp->getOperand(0), *b = cmp->getOperand(1);
        for (int sw = 0; sw < 2; ++sw) {
            auto* call = dyn_cast<CallBase>(a);
            auto  role = call ? roleOf(call) : std::nullopt;
            if (role && role->kind == "colsize" && (p == ICmpInst::ICMP_ULE || p == ICmpInst::ICMP_EQ)) {
                int  col = colOf(call);
                auto* bc = dyn_cast<CallBase>(c.env.resolve(b));
                auto  br2 = bc ? roleOf(bc) : std::nullopt;
                if (col >= 0 && c.ps.get(kAny) && br2 && br2->kind == "colsize" && saved.count(bc) && call->getParent() == from)
                    trim(col, val(b, c), c);
            }
            std::swap(a, b);
            p = ICmpInst::getSwappedPredicate(p);
        }
    }
    std::set<const Value*> saved; // lengths asked for before anything changed, on every path
    void exitCheck(const Instruction* I, bool thrown, FlowCtx& c) {
        C.R.count("C29.obligations");
        for (int k = 1; k < NCOL; ++k)
            if (norm(0, thrown, c) != norm(k, thrown, c)) {
                bad(std::string(thrown ? "an exception leaves" : "the operation ends with") + " columns of different lengths: " + colName(0) + " (" + show(0, c) + "), " + colName(k) + " (" + show(k, c) + ")", I);
                break;
            }
    }
    std::string show(int k, FlowCtx& c) {
        std::string s = seq(k, c);
        return s.empty() ? "unchanged" : s.substr(0, s.size() - 1);
    }
    // an exceptional exit may find untouched columns next to columns cut back to the length they had
    std::string norm(int k, bool, FlowCtx& c) {
        std::string s = seq(k, c);
        if (StringRef(s).starts_with("len=") && s.find(';') == s.size() - 1)
            return "";
        return s;
    }
    void onRet(const ReturnInst* R, FlowCtx& c) override {
        exitCheck(R, false, c);
        if (C.op.has("soasortc") && c.ps.get(kReach) && c.ps.get(kReach) != (1 << NCOL) - 1)
            bad("on some path sorting permutes some columns and not others", R);
        if (C.op.has("soastruct"))
            for (int k = 0; k < NCOL; ++k)
                if (StringRef(seq(k, c)).starts_with("len="))
                    bad("a completed operation ends with " + colName(k) + " cut back to its old length", R);
        if (C.op.has("soarow") && c.ps.get(kCb) != (int)C.op.get("soarow").size())
            bad("the row does not refer to the elements stored in the columns", R);
    }
    void onThrowExit(const Instruction* I, FlowCtx& c) override {
        if (C.op.has("soarow"))
            return;
        if (C.op.has("soasortc")) {
            C.R.count("C29.obligations");
            if (c.ps.get(kPhase))
                bad("an exception leaves the sort after some columns were permuted", I);
            return;
        }
        exitCheck(I, true, c);
    }
    void finish() {
        const Instruction* I = &C.F.getEntryBlock().front();
        if (C.op.has("soasortc"))
            for (int k = 1; k < NCOL; ++k) {
                C.R.count("C29.obligations");
                if (sortKinds[0] != sortKinds[k])
                    bad("sorting permutes " + colName(0) + " and " + colName(k) + " differently", I);
            }
        if (C.op.has("soasortc") && sortKinds[0].empty())
            bad("sorting does not permute the columns", I);
        for (int k = 1; k < NCOL; ++k)
            if (reserves[0] != reserves[k])
                bad("room is reserved differently in " + colName(0) + " and " + colName(k), I);
    }
};

void run(ACtx& c) {
    if (!c.op.has("soastruct") && !c.op.has("soaread") && !c.op.has("soarow") && !c.op.has("soasortc"))
        return;
    c.R.count("C29.ops");
    SoaRule r(c);
    // lengths asked for before the first structural event of any path
    {
        std::set<const BasicBlock*> after;
        std::vector<const BasicBlock*> wl;
        auto isEv = [&](const Instruction& I) {
            auto* CB = dyn_cast<CallBase>(&I);
            auto  ro = CB ? roleOf(CB) : std::nullopt;
            return ro && SoaRule::isStruct(ro->kind);
        };
        for (auto& B : c.F)
            for (auto& I : B)
                if (isEv(I))
                    for (auto* S : successors(&B))
                        wl.push_back(S);
        while (!wl.empty()) {
            auto* B = wl.back();
            wl.pop_back();
            if (after.insert(B).second)
                for (auto* S : successors(B))
                    wl.push_back(S);
        }
        for (auto& B : c.F) {
            bool seen = after.count(&B) != 0;
            for (auto& I : B) {
                auto* CB = dyn_cast<CallBase>(&I);
                auto  ro = CB ? roleOf(CB) : std::nullopt;
                if (ro && ro->kind == "colsize" && !seen)
                    r.saved.insert(CB);
                seen |= isEv(I);
            }
        }
    }
    FlowStats st;
    if (!runFlow(c.F, r, st))
        c.R.errors.push_back("state budget exceeded in " + c.op.name);
    r.finish();
}
RuleReg reg("soa", run);
} // namespace
