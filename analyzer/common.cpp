#include "rules.h"
#include <numeric>
#include <algorithm>

static std::map<std::string, RuleFn>& rtab() {
    static std::map<std::string, RuleFn> t;
    return t;
}
void   registerRule(const std::string& n, RuleFn f) { rtab()[n] = f; }
RuleFn findRule(const std::string& n) {
    auto it = rtab().find(n);
    return it == rtab().end() ? nullptr : it->second;
}

std::vector<const Value*> contArgs(const ACtx& C) {
    std::vector<const Value*> r;
    std::string               s = C.op.get("cont");
    size_t                    p = 0;
    while (p < s.size()) {
        size_t q = s.find(',', p);
        if (q == std::string::npos)
            q = s.size();
        unsigned n = std::stoi(s.substr(p, q - p));
        if (n < C.F.arg_size())
            r.push_back(C.F.getArg(n));
        p = q + 1;
    }
    return r;
}

static void oblig(const Value* p, const Env& env, const std::set<const Value*>& roots, std::vector<Oblig>& out, int* unresolved,
                  std::set<const Value*>& seen, int depth) {
    if (depth > 24)
        return;
    Lin          res = env.lin(p), raw = env.lin(p, false);
    const Value* b = res.base;
    if (roots.count(b)) {
        out.push_back({ raw, res });
        return;
    }
    if (!seen.insert(b).second)
        return;
    if (auto* P = dyn_cast<PHINode>(b)) {
        // keep the phi itself as a candidate address when one of its sources is an embedded region address
        std::vector<Oblig> sub;
        for (auto& u : P->incoming_values())
            oblig(u.get(), env, roots, sub, unresolved, seen, depth + 1);
        bool embedded = false, through = false;
        for (auto& o : sub)
            (o.res.base && roots.count(o.res.base) ? embedded : through) = true;
        (void)through;
        // distinguish "phi walks over region addresses" from "phi of pointers loaded from the region"
        bool walks = false;
        for (auto& u : P->incoming_values()) {
            Lin l = env.lin(u.get());
            if (roots.count(l.base))
                walks = true;
        }
        if (walks)
            out.push_back({ raw, res });
        else
            out.insert(out.end(), sub.begin(), sub.end());
        (void)embedded;
        return;
    }
    if (auto* S = dyn_cast<SelectInst>(b)) {
        oblig(S->getTrueValue(), env, roots, out, unresolved, seen, depth + 1);
        oblig(S->getFalseValue(), env, roots, out, unresolved, seen, depth + 1);
        return;
    }
    if (auto* L = dyn_cast<LoadInst>(b)) {
        size_t n = out.size();
        oblig(L->getPointerOperand(), env, roots, out, unresolved, seen, depth + 1);
        if (unresolved && out.size() == n) {
            Lin a = env.lin(L->getPointerOperand());
            if (isa<AllocaInst>(a.base))
                ++*unresolved;
        }
        return;
    }
    if (auto* II = dyn_cast<IntToPtrInst>(b)) {
        std::vector<const Value*> w{ II->getOperand(0) };
        std::set<const Value*>    s2;
        while (!w.empty() && s2.size() < 60) {
            const Value* x = w.back();
            w.pop_back();
            if (!s2.insert(x).second)
                continue;
            if (auto* PI = dyn_cast<PtrToIntOperator>(x))
                oblig(PI->getPointerOperand(), env, roots, out, unresolved, seen, depth + 1);
            else if (auto* LI = dyn_cast<LoadInst>(x))
                oblig(LI->getPointerOperand(), env, roots, out, unresolved, seen, depth + 1);
            else if (auto* I = dyn_cast<Instruction>(x))
                for (auto& o : I->operands())
                    if (o->getType()->isIntegerTy())
                        w.push_back(o.get());
        }
        return;
    }
}

void obligations(const Value* p, const Env& env, const std::set<const Value*>& roots, std::vector<Oblig>& out, int* unresolved) {
    std::set<const Value*> seen;
    oblig(p, env, roots, out, unresolved, seen, 0);
}

bool isLockFn(const std::string& n) {
    return n == "w_lock__M" || n == "w_unlock__M" || n == "w_trylock__M" || n == "w_lockS__M" || n == "w_unlockS__M" ||
           n == "w_trylockS__M" || n.compare(0, 14, "pthread_mutex_") == 0 || n.compare(0, 15, "pthread_rwlock_") == 0 ||
           n.compare(0, 12, "w_multilock_") == 0;
}

void accessesOf(const Instruction* I, std::vector<Access>& out) {
    if (auto* L = dyn_cast<LoadInst>(I)) {
        out.push_back({ L->getPointerOperand(), false });
    } else if (auto* S = dyn_cast<StoreInst>(I)) {
        out.push_back({ S->getPointerOperand(), true });
    } else if (auto* A = dyn_cast<AtomicRMWInst>(I)) {
        out.push_back({ A->getPointerOperand(), true });
    } else if (auto* X = dyn_cast<AtomicCmpXchgInst>(I)) {
        out.push_back({ X->getPointerOperand(), true });
    } else if (auto* C = dyn_cast<CallBase>(I)) {
        if (auto* MI = dyn_cast<AnyMemIntrinsic>(C)) {
            out.push_back({ MI->getRawDest(), true });
            if (auto* MT = dyn_cast<AnyMemTransferInst>(MI))
                out.push_back({ MT->getRawSource(), false });
            return;
        }
        if (auto* II = dyn_cast<IntrinsicInst>(C)) {
            if (II->getIntrinsicID() == Intrinsic::prefetch || II->doesNotAccessMemory() ||
                II->getIntrinsicID() == Intrinsic::lifetime_start || II->getIntrinsicID() == Intrinsic::lifetime_end ||
                II->getIntrinsicID() == Intrinsic::assume || isa<DbgInfoIntrinsic>(II))
                return;
        }
        std::string n = calleeName(C);
        if (isLockFn(n))
            return;
        auto r = roleOf(C);
        for (unsigned i = 0; i < C->arg_size(); ++i) {
            if (!C->getArgOperand(i)->getType()->isPointerTy())
                continue;
            bool wr = true;
            if (r) {
                char c = i < r->acc.size() ? r->acc[i] : '_';
                if (c == '_' || c == 'M')
                    continue;
                wr = c != 'R';
            } else if (C->onlyReadsMemory() || C->paramHasAttr(i, Attribute::ReadOnly) || n == "memcmp" || n == "strlen") {
                wr = false;
            }
            out.push_back({ C->getArgOperand(i), wr });
        }
    }
}

void leavesOf(const Value* v0, const Env& env, std::set<const Value*>& leaves, bool throughPhi, int budget) {
    std::set<const Value*>    seen;
    std::vector<const Value*> w{ v0 };
    while (!w.empty() && budget-- > 0) {
        const Value* v = env.resolve(w.back());
        w.pop_back();
        if (isa<Constant>(v) && !isa<ConstantExpr>(v) && !isa<GlobalValue>(v))
            continue;
        if (!seen.insert(v).second)
            continue;
        if (isa<Argument>(v) || isa<GlobalValue>(v)) {
            leaves.insert(v);
            continue;
        }
        if (auto* P = dyn_cast<PHINode>(v)) {
            if (!throughPhi) {
                leaves.insert(P);
                continue;
            }
            for (auto& u : P->incoming_values())
                w.push_back(u.get());
            continue;
        }
        if (auto* I = dyn_cast<Instruction>(v)) {
            if (isa<LoadInst>(I) || isa<AllocaInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<LandingPadInst>(I)) {
                leaves.insert(I);
                continue;
            }
            if (auto* C = dyn_cast<CallBase>(I)) {
                if (isa<IntrinsicInst>(C) && !C->mayWriteToMemory()) {
                    for (auto& a : C->args())
                        w.push_back(a.get());
                } else
                    leaves.insert(C);
                continue;
            }
            for (auto& o : I->operands())
                w.push_back(o.get());
        } else if (auto* CE = dyn_cast<ConstantExpr>(v)) {
            for (auto& o : CE->operands())
                w.push_back(o.get());
        }
    }
}

// ---------------------------------------------------------------- provenance
bool isAllocCall(const Value* v) {
    auto* C = dyn_cast<CallBase>(v);
    if (!C)
        return false;
    std::string n = calleeName(C);
    return n == "w_alloc___" || n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t" || n == "calloc" ||
           n == "_ZnwmRKSt9nothrow_t";
}
bool isFreeCall(const CallBase* C, const Value** p, const Value** size) {
    std::string n  = calleeName(C);
    bool        ok = n == "w_free__F_" || n == "free" || n.compare(0, 5, "_ZdlP") == 0 || n.compare(0, 5, "_ZdaP") == 0;
    if (ok) {
        if (p)
            *p = C->getArgOperand(0);
        if (size)
            *size = C->arg_size() > 1 && C->getArgOperand(1)->getType()->isIntegerTy(64) ? C->getArgOperand(1) : nullptr;
    }
    return ok;
}

static thread_local bool followLocals = false;
// every pointer stored anywhere into the local variable A
static void storedIn(const AllocaInst* A, std::set<const Value*>& vals, std::set<const AllocaInst*>& done) {
    if (!done.insert(A).second)
        return;
    std::vector<const Value*> w{ A };
    std::set<const Value*>    seen;
    while (!w.empty()) {
        const Value* p = w.back();
        w.pop_back();
        if (!seen.insert(p).second)
            continue;
        for (auto* U : p->users()) {
            if (isa<GetElementPtrInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U) || isa<BitCastInst>(U))
                w.push_back(U);
            else if (auto* S = dyn_cast<StoreInst>(U)) {
                if (S->getPointerOperand() == p && S->getValueOperand()->getType()->isPointerTy())
                    vals.insert(S->getValueOperand());
            } else if (auto* MT = dyn_cast<AnyMemTransferInst>(U)) {
                if (MT->getRawDest() == p) {
                    const Value* src = MT->getRawSource()->stripInBoundsOffsets();
                    if (auto* B = dyn_cast<AllocaInst>(src))
                        storedIn(B, vals, done);
                    else
                        vals.insert(MT->getRawSource()); // pointers copied out of *src: deep, handled as loads from it
                }
            }
        }
    }
}
static void rootsRec(const Value* p, const Env& env, Roots& out, bool deep, std::set<std::pair<const Value*, bool>>& seen, int depth) {
    Lin          l = env.lin(p);
    const Value* b = l.base;
    if (!seen.insert({ b, deep }).second)
        return;
    if (depth > 30) {
        out.unknown = true;
        return;
    }
    // pointer differences added to a base: p + (q - r)
    for (auto& t : l.terms)
        if (auto* PI = dyn_cast<PtrToIntOperator>(t.first))
            if (t.second == 1)
                rootsRec(PI->getPointerOperand(), env, out, deep, seen, depth + 1);
    if (isa<Argument>(b) || isa<AllocaInst>(b) || isa<GlobalVariable>(b) || isAllocCall(b)) {
        (deep ? out.deep : out.direct).insert(b);
    } else if (auto* P = dyn_cast<PHINode>(b)) {
        for (auto& u : P->incoming_values())
            rootsRec(u.get(), env, out, deep, seen, depth + 1);
    } else if (auto* S = dyn_cast<SelectInst>(b)) {
        rootsRec(S->getTrueValue(), env, out, deep, seen, depth + 1);
        rootsRec(S->getFalseValue(), env, out, deep, seen, depth + 1);
    } else if (auto* L = dyn_cast<LoadInst>(b)) {
        Lin a = env.lin(L->getPointerOperand());
        if (auto* A = dyn_cast<AllocaInst>(a.base); A && followLocals) {
            std::set<const Value*>      vals;
            std::set<const AllocaInst*> done;
            storedIn(A, vals, done);
            for (auto* v : vals)
                rootsRec(v, env, out, deep, seen, depth + 1);
        }
        rootsRec(L->getPointerOperand(), env, out, true, seen, depth + 1);
    } else if (auto* II = dyn_cast<IntToPtrInst>(b)) {
        std::vector<const Value*> w{ II->getOperand(0) };
        std::set<const Value*>    s2;
        while (!w.empty() && s2.size() < 60) {
            const Value* x = env.resolve(w.back());
            w.pop_back();
            if (!s2.insert(x).second)
                continue;
            if (auto* PI = dyn_cast<PtrToIntOperator>(x))
                rootsRec(PI->getPointerOperand(), env, out, deep, seen, depth + 1);
            else if (auto* LI = dyn_cast<LoadInst>(x))
                rootsRec(LI->getPointerOperand(), env, out, true, seen, depth + 1);
            else if (auto* I = dyn_cast<Instruction>(x))
                for (auto& o : I->operands())
                    if (o->getType()->isIntegerTy())
                        w.push_back(o.get());
        }
    } else if (isa<ConstantPointerNull>(b) || isa<UndefValue>(b)) {
    } else if (auto* EV = dyn_cast<ExtractValueInst>(b)) {
        out.unknown = true;
        (void)EV;
    } else
        out.unknown = true;
}
void rootsOf(const Value* p, const Env& env, Roots& out, bool locals) {
    followLocals = locals;
    std::set<std::pair<const Value*, bool>> seen;
    rootsRec(p, env, out, false, seen, 0);
}

// base + (y - base') with base == base'  ==>  y
static Lin simplified(const Value* p, const Env& env, int depth) {
    Lin l = env.lin(p);
    for (int n = 0; n < 3; ++n) {
        const Value *neg = nullptr, *pos = nullptr;
        for (auto& t : l.terms)
            if (auto* PI = dyn_cast<PtrToIntOperator>(t.first)) {
                if (t.second == -1 && (PI->getPointerOperand() == l.base || samePlace(PI->getPointerOperand(), l.base, env, nullptr, depth + 1)))
                    neg = t.first;
                else if (t.second == 1)
                    pos = t.first;
            }
        if (!neg || !pos)
            break;
        l.terms.erase(neg);
        l.terms.erase(pos);
        Lin q = env.lin(cast<PtrToIntOperator>(pos)->getPointerOperand());
        l.base = q.base;
        l.off += q.off;
        for (auto& t : q.terms) {
            l.terms[t.first] += t.second;
            if (!l.terms[t.first])
                l.terms.erase(t.first);
        }
    }
    return l;
}

bool sameVal(const Value* a, const Value* b, const Env& env, int depth) {
    a = env.resolve(a);
    b = env.resolve(b);
    if (a == b)
        return true;
    auto x = env.evalInt(a), y = env.evalInt(b);
    if (x && y)
        return *x == *y;
    if (depth > 10 || a->getType() != b->getType())
        return false;
    if (a->getType()->isPointerTy())
        return samePlace(a, b, env, nullptr, depth + 1);
    auto* I = dyn_cast<Instruction>(a);
    auto* J = dyn_cast<Instruction>(b);
    if (!I || !J || I->getOpcode() != J->getOpcode() || I->getNumOperands() != J->getNumOperands() || isa<PHINode>(I) ||
        isa<AllocaInst>(I))
        return false;
    if (isa<LoadInst>(I))
        return samePlace(I->getOperand(0), J->getOperand(0), env, nullptr, depth + 1);
    if (auto* C = dyn_cast<CallBase>(I)) {
        if (!isa<IntrinsicInst>(C) || C->mayReadOrWriteMemory())
            return false;
    } else if (I->mayReadOrWriteMemory())
        return false;
    if (!I->isSameOperationAs(J))
        return false;
    for (unsigned k = 0; k < I->getNumOperands(); ++k)
        if (!sameVal(I->getOperand(k), J->getOperand(k), env, depth + 1))
            return false;
    return true;
}

bool samePlace(const Value* a, const Value* b, const Env& env, int64_t* diff, int depth) {
    if (a == b) {
        if (diff)
            *diff = 0;
        return true;
    }
    if (depth > 12)
        return false;
    Lin x = simplified(a, env, depth), y = simplified(b, env, depth);
    if (!diff && x.off != y.off)
        return false;
    if (x.terms.size() != y.terms.size())
        return false;
    std::vector<const Value*> used;
    for (auto& t : x.terms) {
        bool found = false;
        for (auto& u : y.terms) {
            if (u.second != t.second || std::find(used.begin(), used.end(), u.first) != used.end())
                continue;
            if (t.first == u.first || sameVal(t.first, u.first, env, depth + 1)) {
                used.push_back(u.first);
                found = true;
                break;
            }
        }
        if (!found)
            return false;
    }
    if (x.base != y.base) {
        auto* L = dyn_cast<LoadInst>(x.base);
        auto* N = dyn_cast<LoadInst>(y.base);
        if (!L || !N || !samePlace(L->getPointerOperand(), N->getPointerOperand(), env, nullptr, depth + 1))
            return false;
    }
    if (diff)
        *diff = x.off - y.off;
    return true;
}

Elem elemOf(const CallBase* C) {
    Elem e;
    auto r = roleOf(C);
    if (!r || r->kind.size() < 2 || (r->kind[0] != 'k' && r->kind[0] != 'v'))
        return e;
    std::string k = r->kind.substr(1);
    e.key         = r->kind[0] == 'k';
    if (k == "init")
        e.construct = e.init = true;
    else if (k == "conv" || k == "copy")
        e.construct = e.copy = true;
    else if (k == "move" || k == "tmove")
        e.construct = e.move = true;
    else if (k == "copyassign")
        e.assign = e.copy = true;
    else if (k == "moveassign" || k == "tmoveassign")
        e.assign = e.move = true;
    else if (k == "dtor")
        e.destroy = true;
    else
        return e;
    e.is  = true;
    e.dst = C->getArgOperand(0);
    if (C->arg_size() > 1)
        e.src = C->getArgOperand(1);
    return e;
}

std::set<const Value*> argSet(const ACtx& C, const std::string& tag) {
    std::set<const Value*> r;
    std::string            s = C.op.get(tag);
    size_t                 p = 0;
    while (p < s.size()) {
        size_t q = s.find(',', p);
        if (q == std::string::npos)
            q = s.size();
        int n = std::stoi(s.substr(p, q - p));
        if (n >= 0 && n < (int)C.F.arg_size())
            r.insert(C.F.getArg(n));
        p = q + 1;
    }
    return r;
}

// truth value of a returned boolean/count on this path
std::optional<bool> truth(const Value* v, const Env& env) {
    if (auto k = env.evalInt(v))
        return *k != 0;
    v = env.resolve(v);
    if (auto* Z = dyn_cast<CastInst>(v))
        if (Z->getSrcTy()->isIntegerTy() && (isa<ZExtInst>(Z) || isa<SExtInst>(Z)))
            return truth(Z->getOperand(0), env);
    if (auto* X = dyn_cast<BinaryOperator>(v))
        if (X->getOpcode() == Instruction::Xor && X->getType()->isIntegerTy(1))
            if (auto k = env.evalInt(X->getOperand(1)); k && *k) {
                auto t = truth(X->getOperand(0), env);
                if (t)
                    return !*t;
            }
    if (auto* IC = dyn_cast<ICmpInst>(v))
        if (IC->isEquality() && sameVal(IC->getOperand(0), IC->getOperand(1), env))
            return IC->getPredicate() == CmpInst::ICMP_EQ;
    return std::nullopt;
}

// the index terms of an element address (divided by the slot size), through the node pointer if there is one
static bool indexTerms(const Value* p, const Env& env, std::map<const Value*, int64_t>& out, int64_t* scale) {
    Lin l = env.lin(p);
    if (l.terms.empty())
        if (auto* L = dyn_cast<LoadInst>(l.base))
            l = env.lin(L->getPointerOperand());
    if (l.terms.empty())
        return false;
    int64_t g = 0;
    for (auto& t : l.terms)
        g = std::gcd(g, std::abs(t.second));
    for (auto& t : l.terms)
        out[t.first] = t.second / g;
    *scale = g;
    return true;
}

std::optional<bool> eqWithMatch(const Value* elem, const Value* a, const Value* b, const Env& env) {
    bool ptr = a->getType()->isPointerTy();
    if (ptr && samePlace(a, b, env))
        return true;
    if (!elem)
        return std::nullopt;
    if (ptr) { // nothing an accepted element was reached through is null
        auto         ka = env.evalInt(a), kb = env.evalInt(b);
        const Value* p  = ka && !*ka ? b : kb && !*kb ? a : nullptr;
        if (p) {
            const Value* q = elem;
            for (int n = 0; n < 4; ++n) {
                Lin l = env.lin(q);
                if (samePlace(p, q, env) || samePlace(p, l.base, env))
                    return false;
                auto* L = dyn_cast<LoadInst>(l.base);
                if (!L)
                    break;
                q = L->getPointerOperand();
            }
        }
    }
    std::map<const Value*, int64_t> mt;
    int64_t                         sc;
    if (!indexTerms(elem, env, mt, &sc))
        return std::nullopt;
    auto isMatchPos = [&](const Value* v) {
        Lin l;
        if (ptr)
            l = env.lin(v);
        else
            env.linIdx(v, 1, l, true);
        if (l.terms.size() != mt.size() || l.off)
            return false;
        int64_t g = 0;
        for (auto& t : mt) {
            int64_t k = 0;
            for (auto& u : l.terms)
                if (u.first == t.first || sameVal(u.first, t.first, env))
                    k = u.second;
            if (!k || k % t.second || (g && k / t.second != g))
                return false;
            g = k / t.second;
        }
        return true;
    };
    bool x = isMatchPos(a), y = isMatchPos(b);
    if (x == y)
        return std::nullopt;
    const Value* o = x ? b : a;
    if (auto k = env.evalInt(o))
        return ptr || *k < 0 ? std::optional<bool>(false) : std::nullopt;
    if (!ptr)
        return std::nullopt;
    // the accepted element lies inside the table: it is not the end position
    Lin l = env.lin(o);
    return isa<LoadInst>(l.base) ? std::optional<bool>(false) : std::nullopt;
}
