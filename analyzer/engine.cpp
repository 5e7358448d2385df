#include "engine.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <algorithm>

// ---------------------------------------------------------------- misc
std::string whereOf(const Instruction* I) {
    std::string r;
    const DILocation* L = I->getDebugLoc().get();
    if (!L || !L->getLine()) { // look for a neighbour with a location
        for (const Instruction* J = I->getPrevNode(); J && (!L || !L->getLine()); J = J->getPrevNode())
            L = J->getDebugLoc().get();
        for (const Instruction* J = I->getNextNode(); J && (!L || !L->getLine()); J = J->getNextNode())
            L = J->getDebugLoc().get();
    }
    int n = 0;
    for (; L && n < 6; L = L->getInlinedAt(), ++n) {
        std::string file = L->getFilename().str();
        auto        p    = file.find("include/gtl/");
        auto        sl   = file.rfind('/');
        bool        gtl  = p != std::string::npos;
        std::string shortf = gtl ? file.substr(p) : file.substr(sl == std::string::npos ? 0 : sl + 1);
        std::string fn;
        if (auto* SP = L->getScope()->getSubprogram())
            fn = SP->getName().str();
        auto lt = fn.find('<');
        if (lt != std::string::npos && lt > 0 && fn.compare(0, 8, "operator") != 0)
            fn = fn.substr(0, lt);
        if (!r.empty())
            r += " <- ";
        r += shortf + ":" + std::to_string(L->getLine()) + " (" + fn + ")";
    }
    return r.empty() ? "?" : r;
}

std::string calleeName(const Instruction* I) {
    auto* C = dyn_cast<CallBase>(I);
    if (!C)
        return "";
    if (auto* F = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts()))
        return F->getName().str();
    return "";
}

static std::map<std::string, int>& itab() {
    static std::map<std::string, int> t;
    return t;
}
static std::vector<std::string>& inames() {
    static std::vector<std::string> v;
    return v;
}
int intern(const std::string& s) {
    auto it = itab().find(s);
    if (it != itab().end())
        return it->second;
    int i = inames().size() + 1;
    itab()[s] = i;
    inames().push_back(s);
    return i;
}
const std::string& internName(int i) { return inames()[i - 1]; }

bool mayThrow(const CallBase* C) {
    if (C->doesNotThrow())
        return false;
    if (isa<IntrinsicInst>(C))
        return false;
    return true;
}

std::optional<Role> roleOf(const CallBase* C) {
    std::string n = calleeName(C);
    if (n.compare(0, 2, "w_") != 0)
        return std::nullopt;
    Role r;
    auto p = n.find("__");
    if (p == std::string::npos)
        r.kind = n.substr(2);
    else {
        r.kind = n.substr(2, p - 2);
        r.acc  = n.substr(p + 2);
    }
    return r;
}

// ---------------------------------------------------------------- Env
const Value* Env::resolve(const Value* v) const {
    for (int i = 0; i < 64; ++i) {
        auto it = f.find(v);
        if (it != f.end() && it->second.k == AV::Alias) {
            v = it->second.v;
            continue;
        }
        if (auto* F = dyn_cast<FreezeInst>(v)) {
            v = F->getOperand(0);
            continue;
        }
        if (auto* S = dyn_cast<SelectInst>(v)) {
            auto c = evalInt(S->getCondition(), 1);
            if (c) {
                v = *c ? S->getTrueValue() : S->getFalseValue();
                continue;
            }
        }
        if (auto* P = dyn_cast<PHINode>(v)) { // trivial phi
            const Value* only = nullptr;
            bool         ok   = true;
            for (auto& u : P->incoming_values()) {
                const Value* x = u.get();
                if (x == P)
                    continue;
                if (only && only != x)
                    ok = false;
                only = x;
            }
            if (ok && only && !isa<Instruction>(only)) {
                v = only;
                continue;
            }
        }
        break;
    }
    return v;
}

static std::optional<int64_t> constInt(const Value* v) {
    if (auto* C = dyn_cast<ConstantInt>(v)) {
        if (C->getBitWidth() <= 64)
            return C->getSExtValue();
        return std::nullopt;
    }
    if (isa<ConstantPointerNull>(v))
        return 0;
    return std::nullopt;
}

static int64_t sextTo(int64_t v, unsigned bits) {
    if (bits >= 64)
        return v;
    return (int64_t)((uint64_t)v << (64 - bits)) >> (64 - bits);
}
static uint64_t zextFrom(int64_t v, unsigned bits) {
    if (bits >= 64)
        return (uint64_t)v;
    return (uint64_t)v & ((1ull << bits) - 1);
}

std::optional<int64_t> Env::evalInt(const Value* v, int depth) const {
    if (auto c = constInt(v))
        return c;
    auto it = f.find(v);
    if (it != f.end() && it->second.k == AV::Const)
        return it->second.c;
    if (depth > 12)
        return std::nullopt;
    const Value* r = resolve(v);
    if (r != v)
        return evalInt(r, depth + 1);
    auto* I = dyn_cast<Instruction>(v);
    if (!I)
        return std::nullopt;
    unsigned bits = I->getType()->isIntegerTy() ? I->getType()->getIntegerBitWidth() : 64;
    if (bits > 64)
        return std::nullopt;
    switch (I->getOpcode()) {
    case Instruction::ZExt: {
        auto a = evalInt(I->getOperand(0), depth + 1);
        if (!a)
            return std::nullopt;
        return (int64_t)zextFrom(*a, I->getOperand(0)->getType()->getIntegerBitWidth());
    }
    case Instruction::SExt:
        return evalInt(I->getOperand(0), depth + 1);
    case Instruction::Trunc: {
        if (I->getOperand(0)->getType()->getIntegerBitWidth() > 64)
            return std::nullopt;
        auto a = evalInt(I->getOperand(0), depth + 1);
        if (!a)
            return std::nullopt;
        return sextTo(*a, bits);
    }
    case Instruction::Freeze:
        return evalInt(I->getOperand(0), depth + 1);
    case Instruction::ICmp: {
        auto* C = cast<ICmpInst>(I);
        if (!C->getOperand(0)->getType()->isIntegerTy() && !C->getOperand(0)->getType()->isPointerTy())
            return std::nullopt;
        if (C->getOperand(0)->getType()->isIntegerTy() && C->getOperand(0)->getType()->getIntegerBitWidth() > 64)
            return std::nullopt;
        auto a = evalInt(C->getOperand(0), depth + 1), b = evalInt(C->getOperand(1), depth + 1);
        if (!(a && b)) {
            if (C->isEquality() && structEq(C->getOperand(0), C->getOperand(1)))
                return C->getPredicate() == CmpInst::ICMP_EQ ? -1 : 0;
            // address of an object vs null
            if (C->isEquality() && (a || b) && ((a && *a == 0) || (b && *b == 0))) {
                const Value* o = a ? C->getOperand(1) : C->getOperand(0);
                if (o->getType()->isPointerTy()) {
                    Lin l = lin(o);
                    if (isa<AllocaInst>(l.base) || isa<GlobalVariable>(l.base) ||
                        (isa<Argument>(l.base) && cast<Argument>(l.base)->hasNonNullAttr()))
                        return C->getPredicate() == CmpInst::ICMP_EQ ? 0 : -1;
                }
            }
            if (C->isEquality() && rule && psp)
                if (auto q = rule->evalEq(C->getOperand(0), C->getOperand(1), *this, *psp))
                    return (C->getPredicate() == CmpInst::ICMP_EQ) == *q ? -1 : 0;
            return std::nullopt;
        }
        unsigned w = C->getOperand(0)->getType()->isPointerTy() ? 64 : C->getOperand(0)->getType()->getIntegerBitWidth();
        int64_t  sa = sextTo(*a, w), sb = sextTo(*b, w);
        uint64_t ua = zextFrom(*a, w), ub = zextFrom(*b, w);
        bool     r;
        switch (C->getPredicate()) {
        case CmpInst::ICMP_EQ: r = ua == ub; break;
        case CmpInst::ICMP_NE: r = ua != ub; break;
        case CmpInst::ICMP_UGT: r = ua > ub; break;
        case CmpInst::ICMP_UGE: r = ua >= ub; break;
        case CmpInst::ICMP_ULT: r = ua < ub; break;
        case CmpInst::ICMP_ULE: r = ua <= ub; break;
        case CmpInst::ICMP_SGT: r = sa > sb; break;
        case CmpInst::ICMP_SGE: r = sa >= sb; break;
        case CmpInst::ICMP_SLT: r = sa < sb; break;
        case CmpInst::ICMP_SLE: r = sa <= sb; break;
        default: return std::nullopt;
        }
        return r ? -1 : 0;
    }
    case Instruction::And: {
        auto a = evalInt(I->getOperand(0), depth + 1), b = evalInt(I->getOperand(1), depth + 1);
        if (a && b)
            return sextTo(*a & *b, bits);
        if ((a && *a == 0) || (b && *b == 0))
            return 0;
        return std::nullopt;
    }
    case Instruction::Or: {
        auto a = evalInt(I->getOperand(0), depth + 1), b = evalInt(I->getOperand(1), depth + 1);
        if (a && b)
            return sextTo(*a | *b, bits);
        if (bits == 1 && ((a && *a) || (b && *b)))
            return -1;
        return std::nullopt;
    }
    case Instruction::Xor: {
        auto a = evalInt(I->getOperand(0), depth + 1), b = evalInt(I->getOperand(1), depth + 1);
        if (a && b)
            return sextTo(*a ^ *b, bits);
        return std::nullopt;
    }
    case Instruction::Add: {
        auto a = evalInt(I->getOperand(0), depth + 1), b = evalInt(I->getOperand(1), depth + 1);
        if (a && b)
            return sextTo(*a + *b, bits);
        return std::nullopt;
    }
    case Instruction::Sub: {
        auto a = evalInt(I->getOperand(0), depth + 1), b = evalInt(I->getOperand(1), depth + 1);
        if (a && b)
            return sextTo(*a - *b, bits);
        return std::nullopt;
    }
    case Instruction::Select: {
        auto* S = cast<SelectInst>(I);
        if (S->getCondition()->getType()->isIntegerTy(1)) {
            auto c = evalInt(S->getCondition(), depth + 1);
            if (c)
                return evalInt(*c ? S->getTrueValue() : S->getFalseValue(), depth + 1);
            auto a = evalInt(S->getTrueValue(), depth + 1), b = evalInt(S->getFalseValue(), depth + 1);
            if (a && b && *a == *b)
                return a;
        }
        return std::nullopt;
    }
    case Instruction::Call: {
        if (auto* II = dyn_cast<IntrinsicInst>(I))
            if (II->getIntrinsicID() == Intrinsic::expect)
                return evalInt(II->getArgOperand(0), depth + 1);
        return std::nullopt;
    }
    case Instruction::ExtractValue: {
        auto* E = cast<ExtractValueInst>(I);
        // look through insertvalue chains
        const Value* agg = resolve(E->getAggregateOperand());
        while (auto* IV = dyn_cast<InsertValueInst>(agg)) {
            if (IV->getIndices() == E->getIndices())
                return evalInt(IV->getInsertedValueOperand(), depth + 1);
            agg = resolve(IV->getAggregateOperand());
        }
        return std::nullopt;
    }
    default:
        return std::nullopt;
    }
}

bool Env::structEq(const Value* a, const Value* b, int depth) const {
    a = resolve(a);
    b = resolve(b);
    if (a == b)
        return true;
    if (depth > 8 || a->getType() != b->getType())
        return false;
    if (a->getType()->isPointerTy()) {
        // compare linear forms
        Lin la = lin(a), lb = lin(b);
        if (la.base == lb.base && la.off == lb.off) {
            if (la.terms == lb.terms)
                return true;
            // terms may differ only by structurally equal values
            if (la.terms.size() == lb.terms.size()) {
                std::vector<bool> used(lb.terms.size(), false);
                for (auto& t : la.terms) {
                    bool found = false;
                    int  j     = 0;
                    for (auto& u : lb.terms) {
                        if (!used[j] && t.second == u.second && structEq(t.first, u.first, depth + 1)) {
                            used[j] = found = true;
                            break;
                        }
                        ++j;
                    }
                    if (!found)
                        return false;
                }
                return true;
            }
        }
    }
    auto* I = dyn_cast<Instruction>(a);
    auto* J = dyn_cast<Instruction>(b);
    if (!I || !J || I->getOpcode() != J->getOpcode() || I->getNumOperands() != J->getNumOperands())
        return false;
    if (isa<PHINode>(I) || I->mayReadOrWriteMemory() || isa<AllocaInst>(I))
        return false;
    if (auto* C = dyn_cast<CmpInst>(I))
        if (C->getPredicate() != cast<CmpInst>(J)->getPredicate())
            return false;
    if (!I->isSameOperationAs(J))
        return false;
    for (unsigned k = 0; k < I->getNumOperands(); ++k)
        if (!structEq(I->getOperand(k), J->getOperand(k), depth + 1))
            return false;
    return true;
}

void Env::linIdx(const Value* idx, int64_t scale, Lin& out, bool useFacts, int depth) const {
    if (useFacts) {
        if (auto c = evalInt(idx)) {
            out.off += scale * *c;
            return;
        }
        idx = resolve(idx);
    } else if (auto* C = dyn_cast<ConstantInt>(idx)) {
        out.off += scale * C->getSExtValue();
        return;
    }
    if (depth < 8)
        if (auto* I = dyn_cast<Instruction>(idx)) {
            switch (I->getOpcode()) {
            case Instruction::SExt:
                return linIdx(I->getOperand(0), scale, out, useFacts, depth + 1);
            case Instruction::ZExt:
                // treat as opaque unless it is a plain value
                return linIdx(I->getOperand(0), scale, out, useFacts, depth + 1);
            case Instruction::Add:
                linIdx(I->getOperand(0), scale, out, useFacts, depth + 1);
                linIdx(I->getOperand(1), scale, out, useFacts, depth + 1);
                return;
            case Instruction::Sub:
                linIdx(I->getOperand(0), scale, out, useFacts, depth + 1);
                linIdx(I->getOperand(1), -scale, out, useFacts, depth + 1);
                return;
            case Instruction::Mul:
                if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1)))
                    return linIdx(I->getOperand(0), scale * C->getSExtValue(), out, useFacts, depth + 1);
                break;
            case Instruction::Shl:
                if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1)))
                    return linIdx(I->getOperand(0), scale << C->getZExtValue(), out, useFacts, depth + 1);
                break;
            case Instruction::PtrToInt: {
                // address arithmetic: fold the pointer in when coefficient is +-1
                break;
            }
            default:
                break;
            }
        }
    out.terms[idx] += scale;
    if (out.terms[idx] == 0)
        out.terms.erase(idx);
}

Lin Env::lin(const Value* p, bool useFacts) const {
    Lin L;
    for (int n = 0; n < 64; ++n) {
        if (useFacts)
            p = resolve(p);
        if (auto* G = dyn_cast<GEPOperator>(p)) {
            for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                const Value* idx = it.getOperand();
                if (StructType* ST = it.getStructTypeOrNull()) {
                    unsigned fi = cast<ConstantInt>(idx)->getZExtValue();
                    L.off += DL.getStructLayout(ST)->getElementOffset(fi);
                } else {
                    int64_t sz = DL.getTypeAllocSize(it.getIndexedType());
                    linIdx(idx, sz, L, useFacts);
                }
            }
            p = G->getPointerOperand();
            continue;
        }
        if (auto* B = dyn_cast<BitCastOperator>(p)) {
            p = B->getOperand(0);
            continue;
        }
        if (auto* II = dyn_cast<IntrinsicInst>(p)) {
            if (II->getIntrinsicID() == Intrinsic::launder_invariant_group ||
                II->getIntrinsicID() == Intrinsic::strip_invariant_group) {
                p = II->getArgOperand(0);
                continue;
            }
        }
        break;
    }
    L.base = p;
    return L;
}

// does the expression tree of t (through non-phi instructions) contain v?
static bool treeHas(const Value* t, const Value* v, int depth = 0) {
    if (t == v)
        return true;
    auto* I = dyn_cast<Instruction>(t);
    if (!I || isa<PHINode>(I) || isa<AllocaInst>(I) || I->mayReadFromMemory() || depth > 10)
        return false;
    for (auto& o : I->operands())
        if (treeHas(o.get(), v, depth + 1))
            return true;
    return false;
}

void Env::redefine(const Value* v) {
    f.erase(v);
    for (auto it = f.begin(); it != f.end();) {
        if (it->second.k == AV::Alias && treeHas(it->second.v, v))
            it = f.erase(it);
        else
            ++it;
    }
    for (auto it = mem.begin(); it != mem.end();)
        it = it->second.second.k == AV::Alias && treeHas(it->second.second.v, v) ? mem.erase(it) : std::next(it);
}

void Env::memForget(const Value* p, int64_t size) {
    if (mem.empty())
        return;
    Lin l = lin(p);
    if (!isa<AllocaInst>(l.base)) {
        if (isa<PHINode>(l.base) || isa<SelectInst>(l.base) || isa<IntToPtrInst>(l.base))
            mem.clear();
        return;
    }
    for (auto it = mem.begin(); it != mem.end();) {
        bool hit = it->first.first == l.base &&
                   (!l.terms.empty() || size < 0 || (it->first.second < l.off + size && l.off < it->first.second + it->second.first));
        it = hit ? mem.erase(it) : std::next(it);
    }
}

void Env::memEffect(const Instruction* I) {
    if (auto* S = dyn_cast<StoreInst>(I)) {
        const Value* v  = S->getValueOperand();
        int64_t      sz = DL.getTypeStoreSize(v->getType());
        memForget(S->getPointerOperand(), sz);
        Lin l = lin(S->getPointerOperand());
        if (isa<AllocaInst>(l.base) && l.terms.empty() && (v->getType()->isIntegerTy() || v->getType()->isPointerTy())) {
            if (auto k = evalInt(v))
                mem[{ l.base, l.off }] = { sz, AV{ AV::Const, *k, nullptr } };
            else if (!isa<UndefValue>(v))
                mem[{ l.base, l.off }] = { sz, AV{ AV::Alias, 0, resolve(v) } };
        }
    } else if (auto* L = dyn_cast<LoadInst>(I)) {
        if (mem.empty() || L->isVolatile())
            return;
        Lin l = lin(L->getPointerOperand());
        if (!isa<AllocaInst>(l.base) || !l.terms.empty())
            return;
        auto it = mem.find({ l.base, l.off });
        if (it == mem.end() || it->second.first != (int64_t)DL.getTypeStoreSize(L->getType()))
            return;
        const AV& a = it->second.second;
        if (a.k == AV::Alias && (a.v->getType() != L->getType() || a.v == L))
            return;
        f[L] = a;
    } else if (auto* C = dyn_cast<CallBase>(I)) {
        if (auto* MI = dyn_cast<AnyMemIntrinsic>(C)) {
            auto n = evalInt(MI->getLength());
            memForget(MI->getRawDest(), n ? *n : -1);
            Lin d = lin(MI->getRawDest());
            if (!n || !isa<AllocaInst>(d.base) || !d.terms.empty())
                return;
            if (auto* MS = dyn_cast<AnyMemSetInst>(MI)) {
                if (auto k = evalInt(MS->getValue()); k && *k == 0)
                    for (int64_t o = 0; o < *n && o < 256; o += 8)
                        mem[{ d.base, d.off + o }] = { std::min<int64_t>(8, *n - o), AV{ AV::Const, 0, nullptr } };
                return;
            }
            auto* MT = cast<AnyMemTransferInst>(MI);
            Lin   s  = lin(MT->getRawSource());
            if (!isa<AllocaInst>(s.base) || !s.terms.empty() || s.base == d.base)
                return;
            std::vector<std::pair<int64_t, std::pair<int64_t, AV>>> cp;
            for (auto& e : mem)
                if (e.first.first == s.base && e.first.second >= s.off && e.first.second + e.second.first <= s.off + *n)
                    cp.push_back({ e.first.second - s.off + d.off, e.second });
            for (auto& e : cp)
                mem[{ d.base, e.first }] = e.second;
            return;
        }
        if (isa<IntrinsicInst>(C)) {
            auto id = cast<IntrinsicInst>(C)->getIntrinsicID();
            if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end)
                memForget(C->getArgOperand(1), -1);
            return;
        }
        auto r = roleOf(C);
        if (calleeName(C).find("_List_node_base") != std::string::npos) {
            for (auto it = mem.begin(); it != mem.end();) // std::list's node functions write nothing but pointers
                it = it->second.first == 8 ? mem.erase(it) : std::next(it);
            return;
        }
        for (unsigned i = 0; i < C->arg_size(); ++i) {
            if (!C->getArgOperand(i)->getType()->isPointerTy())
                continue;
            char c = r && i < r->acc.size() ? r->acc[i] : 'W';
            if (r && (c == 'R' || c == '_' || c == 'M'))
                continue;
            bool elem = r && !r->kind.empty() && (r->kind[0] == 'k' || r->kind[0] == 'v');
            memForget(C->getArgOperand(i), elem ? 4 : -1); // K and V are 4 bytes wide (wit.h)
        }
    } else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
        memForget(I->getOperand(0), 8);
    }
}

void Env::learn(const Value* cond, bool val, int depth) {
    if (isa<Constant>(cond) || depth > 6)
        return;
    const Value* c = resolve(cond);
    f[cond]        = AV{ AV::Const, val ? -1 : 0, nullptr };
    if (c != cond && !isa<Constant>(c))
        f[c] = AV{ AV::Const, val ? -1 : 0, nullptr };
    auto* I = dyn_cast<Instruction>(c);
    if (!I)
        return;
    if (auto* C = dyn_cast<ICmpInst>(I)) {
        if (C->isEquality()) {
            bool eq = (C->getPredicate() == CmpInst::ICMP_EQ) == val;
            for (int s = 0; s < 2; ++s) {
                const Value *x = C->getOperand(s), *y = C->getOperand(1 - s);
                auto         k = evalInt(y);
                if (k && !isa<Constant>(x)) {
                    bool i1ish = x->getType()->isIntegerTy(1);
                    // x == k known
                    if (eq) {
                        const Value* rx = resolve(x);
                        if (rx == x || !x->getType()->isPointerTy())
                            f[x] = AV{ AV::Const, *k, nullptr };
                        if (rx != x && !isa<Constant>(rx))
                            f[rx] = AV{ AV::Const, *k, nullptr };
                        // zext/expect of a bool
                        const Value* b = rx;
                        for (int n = 0; n < 4; ++n) {
                            if (auto* II = dyn_cast<IntrinsicInst>(b)) {
                                if (II->getIntrinsicID() == Intrinsic::expect) {
                                    b = resolve(II->getArgOperand(0));
                                    continue;
                                }
                            } else if (auto* Z = dyn_cast<ZExtInst>(b)) {
                                b = resolve(Z->getOperand(0));
                                if (b->getType()->isIntegerTy(1))
                                    learn(b, *k != 0, depth + 1);
                                continue;
                            }
                            break;
                        }
                    } else if (i1ish) {
                        learn(x, !(*k), depth + 1);
                    } else if (*k == 0) {
                        const Value* b = resolve(x);
                        for (int n = 0; n < 4; ++n) {
                            if (auto* II = dyn_cast<IntrinsicInst>(b)) {
                                if (II->getIntrinsicID() == Intrinsic::expect) {
                                    b = resolve(II->getArgOperand(0));
                                    continue;
                                }
                            } else if (auto* Z = dyn_cast<ZExtInst>(b)) {
                                b = resolve(Z->getOperand(0));
                                if (b->getType()->isIntegerTy(1))
                                    learn(b, true, depth + 1);
                                continue;
                            }
                            break;
                        }
                    }
                }
            }
        }
        return;
    }
    if (I->getType()->isIntegerTy(1)) {
        if (I->getOpcode() == Instruction::And && val) {
            learn(I->getOperand(0), true, depth + 1);
            learn(I->getOperand(1), true, depth + 1);
        } else if (I->getOpcode() == Instruction::Or && !val) {
            learn(I->getOperand(0), false, depth + 1);
            learn(I->getOperand(1), false, depth + 1);
        } else if (I->getOpcode() == Instruction::Xor) {
            auto k = evalInt(I->getOperand(1));
            if (k)
                learn(I->getOperand(0), val ^ (*k != 0), depth + 1);
        } else if (auto* S = dyn_cast<SelectInst>(I)) {
            auto t = evalInt(S->getTrueValue()), e = evalInt(S->getFalseValue());
            if (e && !*e && val) { // c && t
                learn(S->getCondition(), true, depth + 1);
                learn(S->getTrueValue(), true, depth + 1);
            } else if (t && *t && !val) { // c || f
                learn(S->getCondition(), false, depth + 1);
                learn(S->getFalseValue(), false, depth + 1);
            }
        } else if (auto* T = dyn_cast<TruncInst>(I)) {
            (void)T;
        }
    }
}

bool Env::knownDifferent(const Value* a, const Value* b) const {
    a = resolve(a);
    b = resolve(b);
    for (auto& kv : f) {
        if (kv.second.k != AV::Const)
            continue;
        auto* C = dyn_cast<ICmpInst>(kv.first);
        if (!C || !C->isEquality())
            continue;
        const Value *x = resolve(C->getOperand(0)), *y = resolve(C->getOperand(1));
        if ((x == a && y == b) || (x == b && y == a)) {
            bool isEq = (C->getPredicate() == CmpInst::ICMP_EQ) == (kv.second.c != 0);
            if (!isEq)
                return true;
        }
    }
    return false;
}

// ---------------------------------------------------------------- provenance
void homesOf(const Value* p, const Env& env, std::vector<Home>& out) {
    std::set<const Value*>                       seen;
    std::vector<std::pair<const Value*, int>>    work{ { p, 0 } };
    bool                                         first = true;
    while (!work.empty()) {
        auto [v, d] = work.back();
        work.pop_back();
        Lin l = env.lin(v);
        if (!seen.insert(l.base).second && !first)
            continue;
        first           = false;
        const Value* b  = l.base;
        if (isa<Argument>(b) || isa<AllocaInst>(b) || isa<GlobalVariable>(b) || isa<Function>(b)) {
            out.push_back({ b, l, d });
        } else if (auto* P = dyn_cast<PHINode>(b)) {
            // an induction pointer keeps its identity as a root besides its sources
            for (auto& u : P->incoming_values())
                work.push_back({ u.get(), d });
            Home h{ b, l, d };
            out.push_back(h);
        } else if (auto* S = dyn_cast<SelectInst>(b)) {
            work.push_back({ S->getTrueValue(), d });
            work.push_back({ S->getFalseValue(), d });
        } else if (auto* L = dyn_cast<LoadInst>(b)) {
            Lin  at = env.lin(L->getPointerOperand());
            Home h{ nullptr, at, d + 1 };
            // root of the address it was loaded from
            std::vector<Home> up;
            static thread_local int guard = 0;
            if (guard < 12) {
                ++guard;
                homesOf(L->getPointerOperand(), env, up);
                --guard;
            }
            if (up.empty())
                out.push_back({ b, l, d });
            for (auto& u : up)
                out.push_back({ u.root, u.at, u.depth + 1 });
        } else if (auto* II = dyn_cast<IntToPtrInst>(b)) {
            // follow integer arithmetic back to pointers
            std::vector<const Value*> w2{ II->getOperand(0) };
            std::set<const Value*>    s2;
            while (!w2.empty()) {
                const Value* x = w2.back();
                w2.pop_back();
                if (!s2.insert(x).second || s2.size() > 40)
                    continue;
                if (auto* PI = dyn_cast<PtrToIntOperator>(x))
                    work.push_back({ PI->getPointerOperand(), d });
                else if (auto* I = dyn_cast<Instruction>(x))
                    for (auto& o : I->operands())
                        if (o->getType()->isIntegerTy())
                            w2.push_back(o.get());
            }
        } else if (auto* EV = dyn_cast<ExtractValueInst>(b)) {
            out.push_back({ EV->getAggregateOperand(), l, d });
        } else {
            out.push_back({ b, l, d });
        }
    }
}

// ---------------------------------------------------------------- dataflow
namespace {
struct Node {
    const BasicBlock* bb;
    PS                ps;
    bool              operator<(const Node& o) const {
        if (bb != o.bb)
            return bb < o.bb;
        return ps < o.ps;
    }
};
} // namespace

bool runFlow(const Function& F, Rule& rule, FlowStats& st, long budget) {
    const DataLayout&           DL = F.getParent()->getDataLayout();
    using Mem = decltype(Env::mem);
    struct Must {
        Facts                  f;
        std::set<const Value*> fresh;
        Mem                    mem;
    };
    std::map<Node, Must>        in;
    const bool                  tf = rule.trackFresh();
    std::deque<Node>            work;
    std::set<Node>              queued;
    std::set<const BasicBlock*> blocks;
    // liveness-lite: which blocks can reach a given block is not needed; facts are filtered by dominance of uses cheaply:
    auto push = [&](const BasicBlock* bb, const PS& ps, const Env& e) {
        const Facts& f = e.f;
        Node n{ bb, ps };
        auto it = in.find(n);
        if (it == in.end()) {
            in[n] = Must{ f, e.fresh, e.mem };
            if (queued.insert(n).second)
                work.push_back(n);
            return;
        }
        Facts merged;
        for (auto& kv : it->second.f) {
            auto j = f.find(kv.first);
            if (j != f.end() && j->second == kv.second)
                merged.insert(kv);
        }
        std::set<const Value*> mfresh;
        for (auto* v : it->second.fresh)
            if (e.fresh.count(v))
                mfresh.insert(v);
        Mem mmem;
        for (auto& kv : it->second.mem) {
            auto j = e.mem.find(kv.first);
            if (j != e.mem.end() && j->second == kv.second)
                mmem.insert(kv);
        }
        if (merged.size() != it->second.f.size() || mmem.size() != it->second.mem.size() || mfresh.size() != it->second.fresh.size()) {
            it->second = Must{ std::move(merged), std::move(mfresh), std::move(mmem) };
            if (queued.insert(n).second)
                work.push_back(n);
        }
    };
    auto edge = [&](const BasicBlock* from, const BasicBlock* to, PS ps, Env env) {
        env.rule = &rule;
        env.psp  = &ps;
        FlowCtx c{ ps, env };
        rule.onEdge(from, to, c);
        // phis evaluated in parallel
        std::vector<std::pair<const PHINode*, AV>> upd;
        std::vector<const PHINode*>                phis;
        for (const PHINode& P : to->phis()) {
            const Value* v = P.getIncomingValueForBlock(from);
            phis.push_back(&P);
            AV   a;
            bool set = false;
            if (isa<UndefValue>(v)) {
            } else if (auto k = env.evalInt(v)) {
                a   = AV{ AV::Const, *k, nullptr };
                set = true;
            } else {
                const Value* r = env.resolve(v);
                if (r != &P) {
                    a   = AV{ AV::Alias, 0, r };
                    set = true;
                }
            }
            if (set)
                upd.push_back({ &P, a });
        }
        for (auto* P : phis)
            env.redefine(P);
        for (auto& u : upd) {
            // an alias whose target mentions a phi of this block is stale now
            if (u.second.k == AV::Alias) {
                bool bad = false;
                for (auto* P : phis)
                    if (treeHas(u.second.v, P))
                        bad = true;
                if (bad)
                    continue;
            }
            env.f[u.first] = u.second;
        }
        if (tf) // a phi is as fresh as the value it takes on this edge
            {
            std::vector<const PHINode*> in1, out1;
            for (auto* P : phis) {
                const Value* v = P->getIncomingValueForBlock(from);
                (isa<Constant>(v) || env.fresh.count(v) ? in1 : out1).push_back(P);
            }
            for (auto* P : in1)
                env.fresh.insert(P);
            for (auto* P : out1)
                env.fresh.erase(P);
        }
        for (auto* P : phis)
            rule.onPhi(P, c);
        push(to, ps, env);
    };
    {
        PS ps;
        rule.init(ps);
        Env     env(DL);
        FlowCtx c{ ps, env };
        rule.start(c);
        push(&F.getEntryBlock(), ps, env);
    }
    while (!work.empty()) {
        Node n = work.front();
        work.pop_front();
        queued.erase(n);
        blocks.insert(n.bb);
        if (++st.states > budget)
            return false;
        struct Cur {
            PS                     ps;
            Facts                  f;
            std::set<const Value*> fresh;
            Mem                    mem;
        };
        std::vector<Cur> curs{ { n.ps, in[n].f, in[n].fresh, in[n].mem } };
        for (const Instruction& I : *n.bb) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I))
                continue;
            ++st.steps;
            std::vector<Cur> next;
            for (auto& cur : curs) {
                Env env(DL);
                env.f     = cur.f;
                env.fresh = cur.fresh;
                env.mem   = cur.mem;
                PS      ps = cur.ps;
                env.rule   = &rule;
                env.psp    = &ps;
                FlowCtx c{ ps, env };
                if (!I.getType()->isVoidTy())
                    env.redefine(&I);
                if (tf && !I.getType()->isVoidTy())
                    env.fresh.insert(&I);
                env.memEffect(&I);
                if (auto* C = dyn_cast<CallBase>(&I)) {
                    bool throws = mayThrow(C) && rule.unwinds(C, c);
                    if (throws) {
                        PS      ps2  = ps;
                        Env     env2 = env;
                        env2.psp     = &ps2;
                        FlowCtx c2{ ps2, env2 };
                        rule.onUnwind(C, c2);
                        if (auto* IV = dyn_cast<InvokeInst>(C))
                            edge(n.bb, IV->getUnwindDest(), ps2, env2);
                        else
                            rule.onThrowExit(&I, c2);
                    }
                    if (rule.wantsFork(C) && (C->getType()->isIntegerTy() || C->getType()->isPointerTy())) {
                        for (int b = 0; b < 2; ++b) {
                            PS      ps2  = ps;
                            Env     env2 = env;
                            env2.psp     = &ps2;
                            FlowCtx c2{ ps2, env2 };
                            if (C->getType()->isIntegerTy())
                                env2.f[C] = AV{ AV::Const, C->getType()->isIntegerTy(1) ? -b : b, nullptr };
                            rule.onInst(&I, c2);
                            rule.onForked(C, b, c2);
                            next.push_back({ ps2, env2.f, env2.fresh, env2.mem });
                        }
                        continue;
                    }
                    if (C->doesNotReturn())
                        continue;
                    rule.onInst(&I, c);
                    next.push_back({ ps, env.f, env.fresh, env.mem });
                    continue;
                }
                if (auto* R = dyn_cast<ReturnInst>(&I)) {
                    rule.onRet(R, c);
                    continue;
                }
                if (isa<ResumeInst>(I)) {
                    rule.onThrowExit(&I, c);
                    continue;
                }
                if (!I.isTerminator())
                    rule.onInst(&I, c);
                next.push_back({ ps, env.f, env.fresh, env.mem });
            }
            curs = std::move(next);
            if (curs.empty())
                break;
        }
        const Instruction* T = n.bb->getTerminator();
        for (auto& cur : curs) {
            Env env(DL);
            env.f     = cur.f;
            env.fresh = cur.fresh;
                env.mem   = cur.mem;
            env.rule  = &rule;
            env.psp   = &cur.ps;
            if (auto* B = dyn_cast<BranchInst>(T)) {
                if (B->isUnconditional()) {
                    edge(n.bb, B->getSuccessor(0), cur.ps, env);
                } else {
                    auto k = env.evalInt(B->getCondition());
                    for (int s = 0; s < 2; ++s) {
                        bool val = s == 0;
                        if (k && (*k != 0) != val)
                            continue;
                        Env e2 = env;
                        if (!k)
                            e2.learn(B->getCondition(), val);
                        edge(n.bb, B->getSuccessor(s), cur.ps, e2);
                    }
                }
            } else if (auto* S = dyn_cast<SwitchInst>(T)) {
                auto k = env.evalInt(S->getCondition());
                if (k) {
                    const BasicBlock* dst = S->getDefaultDest();
                    for (auto& cs : S->cases())
                        if (cs.getCaseValue()->getSExtValue() == *k)
                            dst = cs.getCaseSuccessor();
                    edge(n.bb, dst, cur.ps, env);
                } else {
                    edge(n.bb, S->getDefaultDest(), cur.ps, env);
                    for (auto& cs : S->cases()) {
                        Env e2 = env;
                        if (!isa<Constant>(S->getCondition()))
                            e2.f[S->getCondition()] = AV{ AV::Const, cs.getCaseValue()->getSExtValue(), nullptr };
                        edge(n.bb, cs.getCaseSuccessor(), cur.ps, e2);
                    }
                }
            } else if (auto* IV = dyn_cast<InvokeInst>(T)) {
                edge(n.bb, IV->getNormalDest(), cur.ps, env);
            } else if (isa<UnreachableInst>(T)) {
            } else {
                for (const BasicBlock* s : successors(n.bb))
                    edge(n.bb, s, cur.ps, env);
            }
        }
    }
    st.blocks += blocks.size();
    return true;
}

// ---------------------------------------------------------------- normalisation
// std::lock(a, b, ...) becomes one call w_multilock_{x,s}; guard objects get their ownership flag set.
static void rewriteStdLock(Module& M) {
    std::vector<Function*> fs;
    for (Function& F : M)
        if (F.getName().starts_with("_ZSt4lockI"))
            fs.push_back(&F);
    for (Function* F : fs) {
        std::string nm     = F->getName().str();
        bool        shared = nm.find("shared_lock") != std::string::npos;
        bool        guards = shared || nm.find("unique_lock") != std::string::npos;
        LLVMContext& Ctx   = M.getContext();
        std::vector<Type*> tys(F->arg_size(), PointerType::getUnqual(Ctx));
        auto*              FT = FunctionType::get(Type::getVoidTy(Ctx), tys, false);
        std::string        wn = std::string(shared ? "w_multilock_s" : "w_multilock_x") + std::to_string(F->arg_size());
        Function* W = cast<Function>(M.getOrInsertFunction(wn, FT).getCallee());
        F->deleteBody();
        F->setComdat(nullptr);
        F->setLinkage(GlobalValue::InternalLinkage);
        F->setPersonalityFn(nullptr);
        BasicBlock*         bb = BasicBlock::Create(Ctx, "entry", F);
        IRBuilder<>         B(bb);
        std::vector<Value*> args;
        for (auto& a : F->args()) {
            if (guards)
                args.push_back(B.CreateLoad(PointerType::getUnqual(Ctx), &a));
            else
                args.push_back(&a);
        }
        B.CreateCall(W, args);
        if (guards)
            for (auto& a : F->args())
                B.CreateStore(B.getInt8(1), B.CreateConstGEP1_64(B.getInt8Ty(), &a, 8));
        B.CreateRetVoid();
    }
}

bool normalise(Module& M, std::string& err, const std::set<std::string>& ops) {
    rewriteStdLock(M);
    for (Function& F : M) {
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr("no-inline-line-tables");
        if (F.isDeclaration())
            continue;
        if (ops.count(F.getName().str()) || F.getName().starts_with("op_"))
            continue;
        if (F.getName() == "__clang_call_terminate") {
            F.addFnAttr(Attribute::NoInline);
            continue;
        }
        F.addFnAttr(Attribute::AlwaysInline);
        if (!F.hasLocalLinkage())
            F.setLinkage(F.hasComdat() ? F.getLinkage() : GlobalValue::InternalLinkage);
    }
    PassBuilder             PB;
    LoopAnalysisManager     LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager    CGAM;
    ModuleAnalysisManager   MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    const char* fn = "sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,jump-threading,correlated-propagation,"
                     "gvn<no-pre;no-load-pre>,sroa,instcombine<no-verify-fixpoint>,simplifycfg,jump-threading,"
                     "gvn<no-pre;no-load-pre>,dse,instcombine<no-verify-fixpoint>,simplifycfg,adce";
    std::string pipe = std::string("always-inline,globaldce,function(") + fn + "),always-inline,globaldce,function(" + fn + ")";
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, pipe)) {
        err = toString(std::move(e));
        return false;
    }
    MPM.run(M, MAM);
    return true;
}

// a choice between two addresses becomes control flow, so that each is followed on its own path
void lowerPointerSelects(Function& F) {
    std::vector<SelectInst*> sel;
    for (auto& I : instructions(F))
        if (auto* S = dyn_cast<SelectInst>(&I); S && S->getType()->isPointerTy() && S->getCondition()->getType()->isIntegerTy(1))
            sel.push_back(S);
    for (auto* S : sel) {
        BasicBlock*  head = S->getParent();
        Instruction* T    = SplitBlockAndInsertIfThen(S->getCondition(), S, false);
        auto*        Ph   = PHINode::Create(S->getType(), 2, "", S);
        Ph->setDebugLoc(S->getDebugLoc());
        Ph->addIncoming(S->getTrueValue(), T->getParent());
        Ph->addIncoming(S->getFalseValue(), head);
        S->replaceAllUsesWith(Ph);
        S->eraseFromParent();
    }
}
