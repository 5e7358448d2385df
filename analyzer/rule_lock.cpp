// Lock rule: coverage (C01), mode (C02), release (C03), check-then-act (C04), deadlock (C05).
#include "rules.h"
#include <sstream>

namespace {
struct LockKey {
    Lin         raw, res;
    const Value* ptr;
};

std::string linStr(const Lin& l) {
    std::ostringstream o;
    o << (const void*)l.base;
    for (auto& t : l.terms)
        o << "+" << t.second << "*" << (const void*)t.first;
    o << "@" << l.off;
    return o.str();
}

bool linHas(const Lin& l, const Value* v) {
    if (l.base == v)
        return true;
    for (auto& t : l.terms) {
        std::vector<const Value*> w{ t.first };
        int                       n = 0;
        while (!w.empty() && n++ < 40) {
            const Value* x = w.back();
            w.pop_back();
            if (x == v)
                return true;
            auto* I = dyn_cast<Instruction>(x);
            if (!I || isa<PHINode>(I) || I->mayReadFromMemory())
                continue;
            for (auto& o : I->operands())
                w.push_back(o.get());
        }
    }
    return false;
}

class LockRule : public Rule {
public:
    ACtx&                  C;
    std::set<const Value*> roots;
    std::vector<const Value*> rootv;
    int64_t                stride, host = 0, mapSize = 0;
    bool                   cta;
    std::map<int, LockKey> keys;
    int                    kProbed = intern("probed");
    const Value*           harg    = nullptr;
    std::string            fnNoLock;
    explicit LockRule(ACtx& c)
        : C(c) {
        for (auto* v : contArgs(c)) {
            roots.insert(v);
            rootv.push_back(v);
        }
        long sz = c.consts.count("w_sizeof_M") ? c.consts["w_sizeof_M"] : 0;
        stride  = sz / c.op.num("n", 1);
        // a cache built on a parallel container: the submaps start at the first lock
        if (c.consts.count("w_sizeof_map")) {
            mapSize = c.consts["w_sizeof_map"];
            stride  = mapSize / c.op.num("n", 1);
            Env     env(c.M.getDataLayout());
            int64_t h = -1;
            for (auto& I : instructions(c.F))
                if (auto* CB = dyn_cast<CallBase>(&I))
                    if (isLockFn(calleeName(CB))) {
                        Lin l = env.lin(CB->getArgOperand(0), false);
                        if (roots.count(l.base) && (h < 0 || l.off < h))
                            h = l.off;
                    }
            host = std::max<int64_t>(h, 0);
        }
        cta     = c.op.has("cta");
        if (c.op.has("harg"))
            harg = c.F.getArg(c.op.num("harg"));
        fnNoLock = c.op.get("nolockfn");
    }
    bool trackFresh() override { return cta; }

    void bad(const char* prop, const std::string& msg, const Instruction* I) { C.R.violate(prop, C.op.name, msg, whereOf(I)); }
    void obl(const char* prop) { C.R.count(std::string(prop) + ".obligations"); }

    bool    ownField(const Oblig& o) const { return mapSize && o.raw.terms.empty() && (o.raw.off < host || o.raw.off >= host + mapSize); }
    int64_t cell(int64_t off) const {
        off -= host;
        return stride > 0 ? (off >= 0 ? off / stride : -((-off + stride - 1) / stride)) : off;
    }
    bool    matchLin(const Lin& a, const Lin& k) const { return a.base == k.base && a.terms == k.terms && cell(a.off) == cell(k.off); }
    bool    match(const Oblig& o, const LockKey& k) const { return matchLin(o.raw, k.raw) || matchLin(o.res, k.res); }

    int keyOf(const Value* p, const Env& env) {
        LockKey k{ env.lin(p, false), env.lin(p), p };
        int     id = intern("lk:" + linStr(k.raw) + "/" + linStr(k.res));
        keys.emplace(id, k);
        return id;
    }
    int staleOf(int id) { return intern("st:" + internName(id)); }

    // mode held covering obligation o (0 none, 1 shared, 2 exclusive)
    int held(const Oblig& o, const PS& ps) {
        int m = 0;
        for (auto& kv : ps.m) {
            auto it = keys.find(kv.first);
            if (it != keys.end() && match(o, it->second))
                m = std::max(m, kv.second);
        }
        return m;
    }
    bool anyHeld(const PS& ps, int* mode = nullptr) {
        bool r = false;
        for (auto& kv : ps.m) {
            const std::string& n = internName(kv.first);
            if (n.compare(0, 3, "lk:") == 0 || n.compare(0, 3, "st:") == 0) {
                r = true;
                if (mode)
                    *mode = std::max(*mode, kv.second);
            }
        }
        return r;
    }

    void acquire(const CallBase* I, const Value* p, int mode, FlowCtx& c, bool multi) {
        if (!multi) {
            obl("C05");
            if (anyHeld(c.ps))
                bad("C05", "waits for a lock while already holding one (no deadlock-avoiding acquisition)", I);
        }
        int id = keyOf(p, c.env);
        c.ps.set(id, mode);
        c.ps.set(kProbed, 0);
        c.env.fresh.clear();
    }
    void release(const CallBase* I, const Value* p, int mode, FlowCtx& c) {
        obl("C03");
        LockKey k{ c.env.lin(p, false), c.env.lin(p), p };
        for (auto& kv : c.ps.m) {
            auto it = keys.find(kv.first);
            if (it == keys.end())
                continue;
            if ((it->second.raw.same(k.raw)) || it->second.res.same(k.res)) {
                if (mode && kv.second != mode)
                    bad("C03", std::string("lock taken ") + (kv.second == 2 ? "exclusive" : "shared") + " is released as " +
                                   (mode == 2 ? "exclusive" : "shared"), I);
                c.ps.set(kv.first, 0);
                c.ps.set(kProbed, 0);
                c.env.fresh.clear();
                return;
            }
        }
        bad("C03", "releases a lock that is not held on this path", I);
    }

    bool wantsFork(const CallBase* I) override {
        std::string n = calleeName(I);
        return n == "w_trylock__M" || n == "w_trylockS__M" || n == "pthread_mutex_trylock" || n == "pthread_rwlock_trywrlock" ||
               n == "pthread_rwlock_tryrdlock";
    }
    void onForked(const CallBase* I, bool b, FlowCtx& c) override {
        std::string n  = calleeName(I);
        bool        ok = n.compare(0, 2, "w_") == 0 ? b : !b;
        if (ok)
            acquire(I, I->getArgOperand(0), n == "w_trylockS__M" || n == "pthread_rwlock_tryrdlock" ? 1 : 2, c, true);
    }

    void onInst(const Instruction* I, FlowCtx& c) override {
        if (auto* CB = dyn_cast<CallBase>(I)) {
            std::string n = calleeName(CB);
            if (n == "w_lock__M" || n == "pthread_mutex_lock" || n == "pthread_rwlock_wrlock") {
                acquire(CB, CB->getArgOperand(0), 2, c, false);
                if (CB->getType()->isIntegerTy())
                    c.env.f[CB] = AV{ AV::Const, 0, nullptr };
                return;
            }
            if (n == "w_lockS__M" || n == "pthread_rwlock_rdlock") {
                acquire(CB, CB->getArgOperand(0), 1, c, false);
                if (CB->getType()->isIntegerTy())
                    c.env.f[CB] = AV{ AV::Const, 0, nullptr };
                return;
            }
            if (n == "w_unlock__M" || n == "pthread_mutex_unlock") {
                release(CB, CB->getArgOperand(0), 2, c);
                return;
            }
            if (n == "w_unlockS__M") {
                release(CB, CB->getArgOperand(0), 1, c);
                return;
            }
            if (n == "pthread_rwlock_unlock") {
                release(CB, CB->getArgOperand(0), 0, c);
                return;
            }
            if (n.compare(0, 12, "w_multilock_") == 0) {
                obl("C05");
                int mode = n[12] == 's' ? 1 : 2;
                if (anyHeld(c.ps))
                    bad("C05", "waits for several locks while already holding one", CB);
                for (unsigned i = 0; i < CB->arg_size(); ++i)
                    for (unsigned j = i + 1; j < CB->arg_size(); ++j) {
                        const Value *a = CB->getArgOperand(i), *b = CB->getArgOperand(j);
                        if (!distinct(a, b, c.env))
                            bad("C05", "locks two mutexes that may be the same object", CB);
                    }
                for (auto& a : CB->args())
                    acquire(CB, a.get(), mode, c, true);
                return;
            }
            if (!fnNoLock.empty() && n == fnNoLock) {
                obl("C05");
                if (anyHeld(c.ps))
                    bad("C05", "runs the user's function while holding a lock", CB);
            }
        }
        std::vector<Access> acc;
        accessesOf(I, acc);
        for (auto& a : acc) {
            std::vector<Oblig> ob;
            int                unres = 0;
            obligations(a.ptr, c.env, roots, ob, &unres);
            if (unres)
                C.R.count("lock.unresolved");
            ob.erase(std::remove_if(ob.begin(), ob.end(), [&](const Oblig& o) { return ownField(o); }), ob.end());
            if (ob.empty())
                continue;
            int  worst = 2;
            for (auto& o : ob)
                worst = std::min(worst, held(o, c.ps));
            obl("C01");
            if (a.write && cta && worst < 2) {
                obl("C04");
                bad("C04", "acts on the submap without holding its lock exclusively since the lookup", I);
            }
            if (worst == 0) {
                int  m  = 0;
                bool ah = anyHeld(c.ps, &m);
                bad("C01", std::string(a.write ? "writes" : "reads") + " submap contents " +
                               (ah ? "while holding only the lock of another submap" : "without holding the submap's lock"), I);
                continue;
            }
            if (a.write) {
                obl("C02");
                if (worst < 2)
                    bad("C02", "writes submap contents, or hands out write access, under a shared lock", I);
            }
            if (a.write && cta && worst == 2) {
                obl("C04");
                if (!c.ps.get(kProbed))
                    bad("C04", "acts on the submap without having looked the key up during this hold of the lock", I);
                else if (!freshPtr(a.ptr, c.env))
                    bad("C04", "acts on a position obtained before the lock was last acquired", I);
            }
        }
    }

    bool distinct(const Value* a, const Value* b, const Env& env) {
        if (env.knownDifferent(a, b))
            return true;
        std::vector<Oblig> oa, ob;
        obligations(a, env, roots, oa);
        obligations(b, env, roots, ob);
        // both reduce to embedded addresses of the containers
        std::set<const Value*> ra, rb;
        auto                   rootsOf = [&](const Value* p, std::set<const Value*>& out) {
            std::vector<const Value*> w{ p };
            std::set<const Value*>    seen;
            while (!w.empty()) {
                Lin l = env.lin(w.back());
                w.pop_back();
                if (!seen.insert(l.base).second)
                    continue;
                if (auto* P = dyn_cast<PHINode>(l.base)) {
                    for (auto& u : P->incoming_values())
                        w.push_back(u.get());
                } else
                    out.insert(l.base);
            }
        };
        rootsOf(a, ra);
        rootsOf(b, rb);
        if (ra.size() == 1 && rb.size() == 1) {
            const Value *x = *ra.begin(), *y = *rb.begin();
            if (x == y) {
                Lin la = env.lin(a), lb = env.lin(b);
                return la.sameSym(lb) && la.off != lb.off;
            }
            if (env.knownDifferent(x, y))
                return true;
            // addresses inside the containers compared at the same offset
            Lin la = env.lin(a), lb = env.lin(b);
            for (auto& kv : env.f) {
                auto* IC = dyn_cast<ICmpInst>(kv.first);
                if (!IC || !IC->isEquality() || kv.second.k != AV::Const)
                    continue;
                bool isEq = (IC->getPredicate() == CmpInst::ICMP_EQ) == (kv.second.c != 0);
                if (isEq || !IC->getOperand(0)->getType()->isPointerTy())
                    continue;
                Lin p = env.lin(IC->getOperand(0)), q = env.lin(IC->getOperand(1));
                if (((p.base == la.base && q.base == lb.base) || (p.base == lb.base && q.base == la.base)) && p.terms == q.terms &&
                    p.off == q.off && la.terms == lb.terms)
                    return true;
            }
        }
        return false;
    }

    // is every region load the pointer depends on (on this path) newer than the acquisition of the lock?
    bool freshPtr(const Value* p, const Env& env) {
        std::set<const Value*> leaves;
        leavesOf(p, env, leaves, false);
        for (auto* l : leaves) {
            if (env.fresh.count(l))
                continue;
            if (auto* L = dyn_cast<LoadInst>(l)) {
                std::vector<Oblig> ob;
                obligations(L->getPointerOperand(), env, roots, ob);
                if (!ob.empty())
                    return false;
            } else if (auto* P = dyn_cast<PHINode>(l)) {
                std::set<const Value*> sub;
                leavesOf(P, env, sub, true);
                bool stale = false, fresh = false;
                for (auto* x : sub)
                    if (auto* L = dyn_cast<LoadInst>(x)) {
                        std::vector<Oblig> ob;
                        obligations(L->getPointerOperand(), env, roots, ob);
                        if (!ob.empty())
                            (env.fresh.count(x) ? fresh : stale) = true;
                    }
                if (stale && !fresh)
                    return false;
            }
        }
        return true;
    }

    void onEdge(const BasicBlock* from, const BasicBlock* to, FlowCtx& c) override {
        if (!cta || c.ps.get(kProbed))
            return;
        auto* B = dyn_cast<BranchInst>(from->getTerminator());
        const Value* cond = nullptr;
        if (B && B->isConditional())
            cond = B->getCondition();
        else if (auto* S = dyn_cast<SwitchInst>(from->getTerminator()))
            cond = S->getCondition();
        if (!cond || !anyHeld(c.ps))
            return;
        // empty table: a pointer field of the submap is known null / capacity zero on this edge
        if (B) {
            const Value* rc = c.env.resolve(cond);
            if (auto* IC = dyn_cast<ICmpInst>(rc))
                if (IC->isEquality() && isa<ConstantPointerNull>(IC->getOperand(1))) {
                    bool eq = (IC->getPredicate() == CmpInst::ICMP_EQ) == (to == B->getSuccessor(0));
                    auto* L = dyn_cast<LoadInst>(c.env.resolve(IC->getOperand(0)));
                    if (eq && L && c.env.fresh.count(L)) {
                        std::vector<Oblig> ob;
                        obligations(L->getPointerOperand(), c.env, roots, ob);
                        if (!ob.empty())
                            c.ps.set(kProbed, 1);
                        return;
                    }
                }
        }
        std::set<const Value*> leaves;
        leavesOf(cond, c.env, leaves, true);
        bool region = false, hash = false;
        for (auto* l : leaves) {
            if (auto* L = dyn_cast<LoadInst>(l)) {
                if (!c.env.fresh.count(L))
                    continue;
                std::vector<Oblig> ob;
                obligations(L->getPointerOperand(), c.env, roots, ob);
                if (!ob.empty())
                    region = true;
            } else if (auto* CB = dyn_cast<CallBase>(l)) {
                if (calleeName(CB) == "w_hash__R")
                    hash = true;
            } else if (l == harg)
                hash = true;
        }
        if (region && hash)
            c.ps.set(kProbed, 1);
    }

    void onPhi(const PHINode* P, FlowCtx& c) override {
        std::vector<std::pair<int, int>> stale;
        for (auto& kv : c.ps.m) {
            auto it = keys.find(kv.first);
            if (it != keys.end() && (linHas(it->second.raw, P)))
                stale.push_back(kv);
        }
        for (auto& kv : stale) {
            c.ps.set(kv.first, 0);
            c.ps.set(staleOf(kv.first), kv.second);
        }
    }
    void onRet(const ReturnInst* I, FlowCtx& c) override {
        obl("C03");
        if (anyHeld(c.ps))
            bad("C03", "returns with a lock still held", I);
    }
    void onThrowExit(const Instruction* I, FlowCtx& c) override {
        obl("C03");
        if (anyHeld(c.ps))
            bad("C03", "an exception leaves the operation with a lock still held", I);
    }
};

void runLock(ACtx& C) {
    if (C.op.has("iter")) // iteration: documented as not thread-safe
        return;
    LockRule  r(C);
    FlowStats st;
    if (!runFlow(C.F, r, st))
        C.R.errors.push_back("state budget exceeded in " + C.op.name);
    C.R.count("flow.blocks", st.blocks);
    C.R.count("flow.states", st.states);
    C.R.count("lock.locksites", r.keys.size());
    if (r.keys.empty() && !C.op.has("nolock"))
        C.R.errors.push_back("no lock acquisition found in " + C.op.name);
}
RuleReg reg("lock", runLock);
} // namespace
