// Memoizers (C27) and LRU caches (C28).  Objects of the user's types are opaque; what a variable, a table slot or a list node holds is
// followed as a token (a caller's argument, the function's result, the found entry's value ...) along every path.  List operations are
// the library's external hook, unhook and transfer; the list header of a shard is recognised by the self-referring stores of clear().
#include "rules.h"
#include "llvm/IR/PatternMatch.h"
#include <functional>
#include <numeric>

namespace {
struct LayoutInfo {
    bool    known = false;
    int64_t mod   = 0; // address of a shard's list header modulo 64
};
bool selfStore(const Instruction& I, const Env& env, Lin* at = nullptr) {
    auto* S = dyn_cast<StoreInst>(&I);
    if (!S || !S->getValueOperand()->getType()->isPointerTy())
        return false;
    Lin a = env.lin(S->getPointerOperand()), b = env.lin(S->getValueOperand());
    if (!a.same(b) || !isa<Argument>(a.base))
        return false;
    if (at)
        *at = a;
    return true;
}
int64_t mod64(const Lin& l) { return ((l.off % 64) + 64) % 64; }

class MemoRule : public Rule {
public:
    ACtx&                       C;
    std::set<const Value*>      cont;
    const Argument*             sret = nullptr;
    int                         firstArg;
    int                         nargs;
    bool                        lru, call, query, ins, get, clear;
    int64_t                     vsize;
    LayoutInfo                  L;
    std::map<int, const Value*> elemPtr;
    const int MASK = intern("m.mask"), MATCH = intern("m.match"), FN = intern("m.fn"), THROWN = intern("m.thrown"), LOOKED = intern("m.looked"),
              KEY = intern("m.key"), VAL = intern("m.val"), NKEY = intern("m.nkey"), NVAL = intern("m.nval"), LOC = intern("m.loc"), MOVED = intern("m.moved"),
              IDX = intern("m.idx"), UNH = intern("m.unh"), EVH = intern("m.evh"), EMPTY = intern("m.empty"), EVENT = intern("m.event"), REL = intern("m.rel"),
              RACED = intern("m.raced"), ASG = intern("m.asg"), FRESHN = intern("m.fresh"), EPOCH = intern("m.epoch"), LCLR = intern("m.lclr"), HELD = intern("m.held"), SHARED = intern("m.shared");
    const int tFn = intern("the function's result"), tElem = intern("the found entry"), tMoved = intern("a moved-from object"), tInit = intern("a default value"),
              tCont = intern("another entry"), tUnk = intern("something unknown"), nFront = intern("the first list node"), nAcc = intern("the found list node"),
              nFresh = intern("the new list node"), nHdr = intern("the list's end"), nLocal = intern("the end of an emptied local list");
    explicit MemoRule(ACtx& c)
        : C(c)
        , cont(argSet(c, "cont")) {
        for (auto& A : c.F.args())
            if (A.hasStructRetAttr())
                sret = &A;
        firstArg = sret ? 2 : 1;
        nargs    = c.op.num("nargs", 1);
        lru      = c.op.has("lru");
        call     = c.op.has("memocall");
        query    = c.op.has("memoq") || c.op.has("lruq");
        ins      = c.op.has("lruins");
        get      = c.op.has("lruget");
        clear    = c.op.has("memoclear");
        vsize    = c.consts.count("w_sizeof_VT") ? c.consts["w_sizeof_VT"] : 16;
    }
    const char* P() const { return call || C.op.has("memoq") ? "C27" : "C28"; }
    void bad(const char* p, const std::string& m, const Instruction* I) { C.R.violate(p, C.op.name, m, whereOf(I)); }
    void obl(const char* p) { C.R.count(std::string(p) + ".obligations"); }
    int  arg(int i) { return intern("argument " + std::to_string(i + 1)); }
    bool isArg(int t) {
        for (int i = 0; i < 3; ++i)
            if (t == arg(i))
                return true;
        return false;
    }
    int vcell(const Value* v) { return intern("mv:" + std::to_string((uintptr_t)v)); }
    int mcell(const Lin& l) { return intern("mm:" + std::to_string((uintptr_t)l.base) + ":" + std::to_string(l.off)); }
    bool owned(const Lin& l) { return l.terms.empty() && (isa<AllocaInst>(l.base) || isAllocCall(l.base) || l.base == sret); }
    bool direct(const Lin& l) { return cont.count(l.base) != 0; }
    bool inTable(const Value* p, const Env& env) { // memory the container owns, beyond the object itself
        Roots r;
        rootsOf(p, env, r);
        for (auto* v : cont)
            if (r.deep.count(v))
                return true;
        return false;
    }
    bool header(const Lin& l, int64_t at = 0) { return L.known && direct(l) && mod64(l) == (L.mod + at) % 64; }
    bool atMatch(const Value* p, FlowCtx& c) {
        int m = c.ps.get(MATCH);
        if (!m)
            return false;
        int64_t d = 0;
        return samePlace(p, elemPtr[m], c.env, &d) && d > -vsize && d < vsize;
    }
    // list node a pointer denotes
    int node(const Value* p, FlowCtx& c) {
        p = c.env.resolve(p);
        if (isAllocCall(p))
            return c.ps.get(FRESHN) == vcell(p) ? nFresh : 0;
        if (int t = c.ps.get(vcell(p)))
            return t;
        Lin l = c.env.lin(p);
        if (l.base != p && l.off == 0 && l.terms.empty())
            return node(l.base, c);
        if (header(l))
            return nHdr;
        return 0;
    }
    int tokenOf(const Value* p, FlowCtx& c) {
        Lin l = c.env.lin(p);
        if (owned(l)) {
            int t = c.ps.get(mcell(l));
            return t ? t : tUnk;
        }
        if (auto* A = dyn_cast<Argument>(l.base))
            if (!cont.count(A))
                return arg(A->getArgNo() - firstArg);
        if (lru && l.terms.empty()) {
            int n = node(l.base, c);
            if (n == nAcc)
                return tElem;
            if (n == nFresh)
                return isAllocCall(l.base) ? tUnk : tUnk;
            if (n)
                return intern("entry of " + internName(n));
        }
        if (atMatch(p, c))
            return tElem;
        return tCont;
    }
    std::optional<bool> evalEq(const Value* a, const Value* b, const Env& env, const PS& ps) override {
        if (lru && a->getType()->isPointerTy()) { // a new node is no list's end
            auto isNew = [&](const Value* v) { return ps.get(vcell(env.resolve(v))) == nFresh; };
            auto isEnd = [&](const Value* v) {
                Lin l = env.lin(v);
                return isa<AllocaInst>(l.base) || header(l);
            };
            if ((isNew(a) && isEnd(b)) || (isNew(b) && isEnd(a)))
                return false;
            // a node of a local list, or its end, is none of the cache's
            auto tok   = [&](const Value* v) { return ps.get(vcell(env.resolve(v))); };
            auto local = [&](const Value* v) {
                return ps.get(LOC) == 1 && (tok(v) == nFresh || tok(v) == intern("next of " + internName(nFresh)) || (isAllocCall(env.resolve(v)) && ps.get(FRESHN) == vcell(env.resolve(v))));
            };
            auto cache = [&](const Value* v) { return tok(v) == nFront || tok(v) == nAcc || header(env.lin(v)); };
            if ((local(a) && cache(b)) || (local(b) && cache(a)))
                return false;
            auto isLocalEnd = [&](const Value* v) { return ps.get(vcell(env.resolve(v))) == nLocal; };
            if ((isLocalEnd(a) && isa<AllocaInst>(env.lin(b).base)) || (isLocalEnd(b) && isa<AllocaInst>(env.lin(a).base)))
                return true;
        }
        int m = ps.get(MATCH);
        return eqWithMatch(m ? elemPtr[m] : nullptr, a, b, env);
    }
    bool unwinds(const CallBase* I, FlowCtx&) override {
        std::string n = calleeName(I);
        return !lru || (n != "w_hash__R" && n != "w_eq__RR");
    }
    bool wantsFork(const CallBase* I) override { return calleeName(I) == "w_eq__RR"; }
    // has the new key been put in the table (what follows concerns the entry to drop)?
    bool evicting(FlowCtx& c) { return lru && (c.ps.get(KEY) || c.ps.get(UNH)); }
    void onForked(const CallBase* I, bool b, FlowCtx& c) override {
        if (evicting(c))
            return;
        const Value *x = I->getArgOperand(0), *y = I->getArgOperand(1);
        bool         cx = inTable(x, c.env), cy = inTable(y, c.env);
        if (cx == cy)
            return;
        obl(P());
        int t = tokenOf(cx ? y : x, c), i = -1;
        for (int k = 0; k < nargs; ++k)
            if (t == arg(k))
                i = k;
        if (i < 0) {
            bad(P(), "looks up " + internName(t) + " instead of what the caller gave", I);
            return;
        }
        if (!b) {
            c.ps.set(MASK, 0);
            return;
        }
        int m = c.ps.get(MASK) | 1 << i;
        c.ps.set(MASK, m);
        if (m == (1 << nargs) - 1) {
            const Value* e  = cx ? x : y;
            int          id = intern("mm:" + std::to_string((uintptr_t)e));
            elemPtr[id]     = e;
            if (c.ps.get(FN))
                c.ps.set(RACED, 1);
            else
                c.ps.set(MATCH, id);
        }
    }
    void event(FlowCtx& c, const Instruction* I) {
        obl("C28");
        c.ps.set(EVENT, 1);
        if (c.ps.get(REL))
            bad("C28", "changes index and list under different holds of the lock", I);
        if (c.ps.get(SHARED))
            bad("C28", "changes index or list under a shared lock", I);
        if (query)
            bad("C28", "a query changes the recency list or the index", I);
    }
    // front-equality: true when the condition holding means the found node is already the first one
    bool frontCond(const Value* v, FlowCtx& c) {
        using namespace PatternMatch;
        Value *x, *y;
        if (match(const_cast<Value*>(v), m_LogicalOr(m_Value(x), m_Value(y))))
            return frontCond(x, c) && frontCond(y, c);
        auto* X = dyn_cast<ICmpInst>(v);
        if (!X || X->getPredicate() != CmpInst::ICMP_EQ)
            return false;
        int a = node(X->getOperand(0), c), b = node(X->getOperand(1), c);
        if (a != nFront)
            std::swap(a, b);
        return a == nFront && (b == nAcc || b == intern("next of " + internName(nAcc)));
    }
    void onEdge(const BasicBlock* from, const BasicBlock* to, FlowCtx& c) override {
        if (!lru)
            return;
        auto* B = dyn_cast<BranchInst>(from->getTerminator());
        if (!B || !B->isConditional() || B->getSuccessor(0) == B->getSuccessor(1))
            return;
        bool t = to == B->getSuccessor(0);
        if (t && frontCond(B->getCondition(), c)) {
            c.ps.set(MOVED, 1);
            return;
        }
        if (auto* X = dyn_cast<ICmpInst>(B->getCondition()); X && X->isEquality()) {
            int  a = node(X->getOperand(0), c), b = node(X->getOperand(1), c);
            bool eq = (X->getPredicate() == CmpInst::ICMP_EQ) == t;
            if ((a == nFront && b == nHdr) || (a == nHdr && b == nFront))
                c.ps.set(EMPTY, eq ? 2 : 1);
            if (!t && X->getPredicate() == CmpInst::ICMP_NE && ((a == nFront && b == nAcc) || (a == nAcc && b == nFront)))
                c.ps.set(MOVED, 1);
        }
    }
    int back(FlowCtx& c) {
        if (c.ps.get(EMPTY) == 2)
            return c.ps.get(LOC) == 2 ? nFresh : nHdr;
        return intern(c.ps.get(EPOCH) ? "the last but one list node" : "the last list node");
    }
    void onLoad(const LoadInst* I, FlowCtx& c) {
        if (!I->getType()->isPointerTy())
            return;
        int t = 0;
        Lin l = c.env.lin(I->getPointerOperand());
        if (header(l)) {
            t = c.ps.get(LOC) == 2 ? nFresh : c.ps.get(MOVED) == 2 ? nAcc : nFront;
        } else if (header(l, 8)) {
            t = back(c);
        } else if (l.terms.empty() && isa<AllocaInst>(l.base) && c.ps.get(LOC)) {
            if (c.ps.get(intern("m.lhdr")) == vcell(l.base) && l.off <= 8)
                t = c.ps.get(LOC) == 1 ? nFresh : nLocal;
        } else if (atMatch(I->getPointerOperand(), c)) {
            t = nAcc;
        } else if (l.terms.empty()) {
            int n = node(l.base, c);
            if (n && n != nHdr)
                t = intern((l.off == 0 ? "next of " : l.off == 8 ? "previous of " : "part of ") + internName(n));
        }
        c.ps.set(vcell(I), t);
    }
    void onHook(const CallBase* I, FlowCtx& c) {
        const Value *n = c.env.resolve(I->getArgOperand(0)), *pos = c.env.resolve(I->getArgOperand(1));
        Lin          pl = c.env.lin(pos), nl = c.env.lin(n);
        if (isAllocCall(nl.base) && nl.off == 0)
            c.ps.set(FRESHN, vcell(nl.base));
        auto* PLd = dyn_cast<LoadInst>(pos);
        Lin   src = PLd ? c.env.lin(PLd->getPointerOperand()) : pl;
        if (pl.terms.empty() && isa<AllocaInst>(pl.base)) {
            c.ps.set(LOC, 1);
            c.ps.set(intern("m.lhdr"), vcell(pl.base));
            return;
        }
        if (isa<AllocaInst>(src.base)) {
            c.ps.set(LOC, 1);
            c.ps.set(intern("m.lhdr"), vcell(src.base));
            return;
        }
        event(c, I);
        if (c.ps.get(LOC) == 2)
            bad("C28", "adds more than one list entry", I);
        c.ps.set(LOC, 2);
        if (c.ps.get(MATCH))
            bad("C28", "adds a list entry although the key is present", I);
        int pk = node(pos, c);
        if (pk != nFront && !(pk == nHdr && c.ps.get(EMPTY) == 2))
            bad("C28", "the new entry is not added at the front of the recency list", I);
    }
    void onTransfer(const CallBase* I, FlowCtx& c) {
        int first = node(I->getArgOperand(1), c), pos = node(I->getArgOperand(0), c);
        event(c, I);
        bool front = pos == nFront || (pos == nHdr && c.ps.get(EMPTY) == 2);
        if (first == nFresh) {
            if (c.ps.get(MATCH))
                bad("C28", "adds a list entry although the key is present", I);
            c.ps.set(LOC, 2);
            if (!front)
                bad("C28", "the new entry is not added at the front of the recency list", I);
        } else if (first == nAcc) {
            if (!front)
                bad("C28", "the entry used is not moved to the front of the recency list", I);
            c.ps.set(MOVED, 2);
        } else
            bad("C28", "moves " + (first ? internName(first) : std::string("an entry that is not known to be the found one")) + " in the recency list", I);
    }
    void onUnhook(const CallBase* I, FlowCtx& c) {
        event(c, I);
        int n = node(I->getArgOperand(0), c);
        if (n == nFresh) {
            if (c.ps.get(LOC) == 2 && c.ps.get(IDX)) { // evicted at once
                c.ps.set(UNH, c.ps.get(NKEY) ? c.ps.get(NKEY) : tUnk);
                c.ps.set(LOC, 3);
            } else
                c.ps.set(LOC, 0);
            return;
        }
        if (c.ps.get(UNH))
            bad("C28", "removes more than one entry from the recency list", I);
        if (n == nAcc || n == 0)
            bad("C28", n ? "removes the entry just used from the recency list" : "removes an entry not known to be the oldest from the recency list", I);
        c.ps.set(UNH, intern("entry of " + internName(n ? n : tUnk)));
        c.ps.set(EPOCH, 1);
    }
    void onElem(const Elem& e, const CallBase* I, FlowCtx& c) {
        if (e.destroy)
            return;
        int t   = e.src ? tokenOf(e.src, c) : tInit;
        Lin d   = c.env.lin(e.dst);
        bool tab = false;
        if (owned(d)) {
            c.ps.set(mcell(d), t);
            if (isAllocCall(d.base) && lru) {
                if (e.key)
                    c.ps.set(NKEY, t);
                else {
                    c.ps.set(NVAL, t);
                    obl("C28");
                    if ((call && t != tFn) || (ins && t != arg(1)))
                        if (isArg(t) || t == tInit || t == tMoved || t == tFn || t == tUnk)
                            bad(call ? "C27" : "C28", "stores " + internName(t) + " in the new entry", I);
                }
            }
        } else {
            tab = inTable(e.dst, c.env);
            if (tab && e.construct && e.key && isArg(t)) {
                if (lru)
                    event(c, I);
                for (int k = 0; k < nargs; ++k)
                    if (t == arg(k)) {
                        if (c.ps.get(KEY) & 1 << k)
                            bad(P(), "stores the same argument twice", I);
                        c.ps.set(KEY, c.ps.get(KEY) | 1 << k);
                    }
            } else if (tab && e.construct && e.key && (t == tMoved || t == tUnk || t == tInit || t == tFn))
                bad(P(), "stores " + internName(t) + " as the key", I);
            if (tab && e.construct && !e.key && !lru) {
                obl("C27");
                if (t == tFn)
                    c.ps.set(VAL, 1);
                else if (t != tCont && t != tElem)
                    bad("C27", "stores " + internName(t) + " under the arguments", I);
            }
            if (lru && e.assign && !e.key && d.terms.empty() && node(d.base, c) == nAcc && ins) {
                obl("C28");
                if (t != arg(1))
                    bad("C28", "gives the found entry the value of " + internName(t), I);
                c.ps.bump(ASG);
            } else if (tab && e.assign && !e.key && (call || query || get))
                bad(P(), "overwrites the value of an entry", I);
        }
        if (e.move && e.src) {
            Lin s = c.env.lin(e.src);
            if (owned(s) && mcell(s) != (owned(d) ? mcell(d) : -1))
                c.ps.set(mcell(s), tMoved);
            else if (t == tElem && (call || query || get))
                bad(P(), "moves the value out of the cache", I);
        }
    }
    void onInst(const Instruction* I, FlowCtx& c) override {
        if (auto* Ld = dyn_cast<LoadInst>(I)) {
            if (lru)
                onLoad(Ld, c);
            if (!c.ps.get(LOOKED) && inTable(Ld->getPointerOperand(), c.env))
                c.ps.set(LOOKED, 1);
            return;
        }
        if (auto* S = dyn_cast<StoreInst>(I)) {
            if (!lru)
                return;
            if (clear && selfStore(*I, c.env))
                c.ps.set(LCLR, 1);
            if (!S->getValueOperand()->getType()->isPointerTy() || !(call || ins))
                return;
            Lin l = c.env.lin(S->getPointerOperand());
            if (owned(l) || direct(l) || node(l.base, c))
                return;
            int n = node(S->getValueOperand(), c);
            if (!n || !inTable(S->getPointerOperand(), c.env))
                return;
            if (n != nFresh && c.ps.get(MATCH) && n == nAcc)
                return;
            event(c, I);
            if (n != nFresh)
                bad("C28", "the index records " + internName(n) + " for the new key", I);
            c.ps.set(IDX, 1);
            return;
        }
        auto* CB = dyn_cast<CallBase>(I);
        if (!CB)
            return;
        std::string n = calleeName(CB);
        if (isLockFn(n)) {
            c.ps.set(SHARED, n.find("unlock") == std::string::npos && (n.find("rdlock") != std::string::npos || n.find("shared") != std::string::npos));
            if (n.find("unlock") != std::string::npos) {
                if (c.ps.get(EVENT))
                    c.ps.set(REL, 1);
                if (clear && lru) {
                    obl("C28");
                    if (!c.ps.get(LCLR))
                        bad("C28", "leaves the recency list of a shard as it was", I);
                    c.ps.set(LCLR, 0);
                    c.ps.set(HELD, 1);
                }
            } else if (!c.ps.get(FN) && !evicting(c)) { // what was found before the lock was taken no longer counts
                c.ps.set(MATCH, 0);
                c.ps.set(MASK, 0);
            }
            return;
        }
        if (n == "w_fn__WR" || n == "w_fn2__WRR") {
            obl("C27");
            if (!call) {
                bad("C27", "calls the function although it only looks at the cache", I);
                return;
            }
            if (c.ps.get(FN))
                bad("C27", "may call the function more than once", I);
            if (c.ps.get(MATCH))
                bad("C27", "calls the function although its result is cached", I);
            if (!c.ps.get(LOOKED))
                bad("C27", "calls the function without looking in the cache", I);
            for (int k = 0; k < nargs; ++k)
                if (int t = tokenOf(CB->getArgOperand(k + 1), c); t != arg(k))
                    bad("C27", "gives the function " + internName(t) + " as argument " + std::to_string(k + 1), I);
            c.ps.set(FN, 1);
            c.ps.set(MASK, 0);
            Lin d = c.env.lin(CB->getArgOperand(0));
            if (owned(d))
                c.ps.set(mcell(d), tFn);
            else
                bad("C27", "the function's result is built in place inside the cache", I);
            return;
        }
        if (n == "w_result__R" || n == "w_noresult__") {
            bool some = n == "w_result__R";
            obl(P());
            if (some && !c.ps.get(MATCH))
                bad(P(), "reports a cached value although none was found", I);
            if (!some && c.ps.get(MATCH))
                bad(P(), "reports nothing although the value is cached", I);
            if (some)
                if (int t = tokenOf(CB->getArgOperand(0), c); t != tElem)
                    bad(P(), "the value reported is " + internName(t) + ", not the found entry's", I);
            return;
        }
        if (n == "w_hash__R" && lru && evicting(c)) {
            const Value* p = CB->getArgOperand(0);
            Lin          l = c.env.lin(p);
            if (owned(l) || dyn_cast<Argument>(l.base) != nullptr || node(l.base, c)) {
                event(c, I);
                if (c.ps.get(EVH))
                    bad("C28", "drops more than one entry from the index", I);
                c.ps.set(EVH, tokenOf(p, c));
            }
            return;
        }
        if (lru && n.find("_List_node_base") != std::string::npos) {
            if (n.find("_M_hook") != std::string::npos)
                onHook(CB, c);
            else if (n.find("_M_unhook") != std::string::npos)
                onUnhook(CB, c);
            else if (n.find("_M_transfer") != std::string::npos)
                onTransfer(CB, c);
            else
                bad("C28", "changes the recency list in an unknown way", I);
            return;
        }
        Elem e = elemOf(CB);
        if (e.is)
            onElem(e, CB, c);
    }
    void onUnwind(const CallBase* I, FlowCtx& c) override {
        std::string n = calleeName(I);
        if (n == "w_fn__WR" || n == "w_fn2__WRR") {
            c.ps.set(THROWN, 1);
            onFnArgs(I, c);
        }
    }
    void onFnArgs(const CallBase*, FlowCtx&) {}
    std::string fmt(int t) { return t ? internName(t) : "nothing"; }
    void onRet(const ReturnInst* R, FlowCtx& c) override {
        bool hit = c.ps.get(MATCH) != 0;
        if (call) {
            obl("C27");
            if (c.ps.get(THROWN))
                bad("C27", "the function threw but the call returns normally", R);
            else {
                Lin l;
                l.base = sret;
                int t  = c.ps.get(mcell(l));
                if (c.ps.get(FN)) {
                    if (t != tFn)
                        bad("C27", "the function was called but the caller gets " + fmt(t), R);
                    bool stored = c.ps.get(KEY) == (1 << nargs) - 1 && (lru ? c.ps.get(NVAL) == tFn : c.ps.get(VAL) != 0);
                    if (!stored && !c.ps.get(RACED))
                        bad("C27", "the function's result is not stored under the arguments", R);
                } else if (!hit)
                    bad("C27", "the arguments are not cached but the function is not called", R);
                else if (t != tElem)
                    bad("C27", "the arguments are cached but the caller gets " + fmt(t), R);
            }
        }
        if (C.op.num("lruq") == 1 && R->getReturnValue()) {
            auto t = truth(R->getReturnValue(), c.env);
            obl("C28");
            if (!t || *t != hit)
                bad("C28", "does not report truthfully whether the key is present", R);
        }
        if (!lru)
            return;
        if (clear && !c.ps.get(HELD)) {
            obl("C28");
            if (!c.ps.get(LCLR))
                bad("C28", "leaves the recency list as it was", R);
        }
        if ((call && !c.ps.get(THROWN)) || ins || get) {
            obl("C28");
            if (hit) {
                if (!c.ps.get(MOVED))
                    bad("C28", "the entry used is not moved to the front of the recency list", R);
                if (ins && c.ps.get(ASG) != 1)
                    bad("C28", "the key is present but its value is not replaced exactly once", R);
                if (c.ps.get(UNH) || c.ps.get(EVH))
                    bad("C28", "drops an entry although none was added", R);
            } else if (get) {
                if (c.ps.get(EVENT))
                    bad("C28", "changes the recency list although the key is absent", R);
            } else {
                if (c.ps.get(LOC) != 2 && c.ps.get(LOC) != 3)
                    bad("C28", "the new entry is not in the recency list", R);
                if (!c.ps.get(IDX) || c.ps.get(KEY) != (1 << nargs) - 1)
                    bad("C28", "the new entry is not in the index", R);
                if (c.ps.get(NKEY) && !isArg(c.ps.get(NKEY)))
                    bad("C28", "the new list entry holds " + fmt(c.ps.get(NKEY)) + " as its key", R);
                if (ins && c.ps.get(NVAL) != arg(1))
                    bad("C28", "the new list entry holds " + fmt(c.ps.get(NVAL)) + " as its value", R);
                if (c.ps.get(UNH) != c.ps.get(EVH))
                    bad("C28", c.ps.get(EVH) ? c.ps.get(UNH) ? "drops " + fmt(c.ps.get(UNH)) + " from the list but " + fmt(c.ps.get(EVH)) + " from the index" : std::string("drops an entry from the index that stays in the list")
                                             : std::string("drops an entry from the list that stays in the index"),
                        R);
            }
        }
    }
    void onThrowExit(const Instruction* I, FlowCtx& c) override {
        if (call) {
            obl("C27");
            if (c.ps.get(THROWN) && (c.ps.get(KEY) || c.ps.get(VAL)))
                bad("C27", "the function threw but something is stored under the arguments", I);
        }
        if (lru && (call || ins || get)) {
            obl("C28");
            if (c.ps.get(LOC) == 2)
                bad("C28", "an exception leaves a list entry that is not in the index", I);
            if (c.ps.get(UNH))
                bad("C28", "an exception leaves the index referring to a removed list entry", I);
        }
    }
};

void run(ACtx& c) {
    if (!c.op.has("memocall") && !c.op.has("memoq") && !c.op.has("memoclear") && !c.op.has("lruins") && !c.op.has("lruget") && !c.op.has("lruq"))
        return;
    lowerPointerSelects(const_cast<Function&>(c.F));
    MemoRule r(c);
    if (r.lru) {
        Env env(c.M.getDataLayout());
        if (auto* F = c.M.getFunction("op_clear"))
            for (auto& I : instructions(*F)) {
                Lin l;
                if (selfStore(I, env, &l)) {
                    r.L.known = true;
                    r.L.mod   = mod64(l);
                }
            }
        if (!r.L.known && r.clear) {
            c.R.violate("C28", c.op.name, "does not empty the recency list", "op_clear");
            return;
        }
        if (!r.L.known)
            return; // reported for clear()
    }
    FlowStats st;
    if (!runFlow(c.F, r, st))
        c.R.errors.push_back("state budget exceeded in " + c.op.name);
    c.R.count("flow.states", st.states);
}
RuleReg reg("memo", run);
} // namespace
