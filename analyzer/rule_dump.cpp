// Dump and load (C25, C26).  Dumping is followed path by path and yields the sequence of words and memory blocks it hands to the
// archive, named by the place in the container they come from.  Loading is then followed against each such sequence, every word
// it reads being the one dumped at that position: at the end each field must hold what was dumped from that same field, each block
// must have been read into the memory the same pointer field denotes, with the same extent, inside freshly allocated storage.
#include "rules.h"
#include "llvm/Analysis/ConstantFolding.h"
#include <functional>

namespace {
// linear expressions over atoms; an atom is a leaf name or an operation on expressions
struct Ex {
    std::map<int, int64_t> t;
    int64_t                c = 0;
    bool isConst() const { return t.empty(); }
    bool operator==(const Ex& o) const { return c == o.c && t == o.t; }
};
struct Atom {
    std::string      name;
    unsigned         opc = 0;
    Ex               a, b;
};
std::map<int, Atom> atoms;
std::map<int, Ex>   exs;
int                 atomId(const std::string& n) {
    int id = intern("da:" + n);
    if (!atoms.count(id))
        atoms[id].name = n;
    return id;
}
std::string str(const Ex& e) {
    std::string s;
    for (auto& t : e.t)
        s += (s.empty() ? "" : " + ") + (t.second == 1 ? "" : std::to_string(t.second) + "*") + atoms[t.first].name;
    if (e.c || s.empty())
        s += (s.empty() ? "" : " + ") + std::to_string(e.c);
    return s;
}
int exId(const Ex& e) {
    std::string k = "dx:" + std::to_string(e.c);
    for (auto& t : e.t)
        k += "," + std::to_string(t.first) + "*" + std::to_string(t.second);
    int id  = intern(k);
    exs[id] = e;
    return id;
}
Ex konst(int64_t c) {
    Ex e;
    e.c = c;
    return e;
}
Ex leaf(const std::string& n) {
    Ex e;
    e.t[atomId(n)] = 1;
    return e;
}
Ex addx(const Ex& a, const Ex& b, int64_t k = 1) {
    Ex r = a;
    r.c += k * b.c;
    for (auto& t : b.t)
        if (!(r.t[t.first] += k * t.second))
            r.t.erase(t.first);
    return r;
}
Ex scale(const Ex& a, int64_t k) { return addx(Ex(), a, k); }
std::optional<int64_t> fold(unsigned opc, int64_t a, int64_t b) {
    switch (opc) {
    case Instruction::And: return a & b;
    case Instruction::Or: return a | b;
    case Instruction::Xor: return a ^ b;
    case Instruction::Mul: return a * b;
    case Instruction::Shl: return b < 64 ? std::optional<int64_t>((int64_t)((uint64_t)a << b)) : std::nullopt;
    case Instruction::LShr: return b < 64 ? std::optional<int64_t>((int64_t)((uint64_t)a >> b)) : std::nullopt;
    case Instruction::UDiv: return b ? std::optional<int64_t>((int64_t)((uint64_t)a / (uint64_t)b)) : std::nullopt;
    case Instruction::URem: return b ? std::optional<int64_t>((int64_t)((uint64_t)a % (uint64_t)b)) : std::nullopt;
    }
    return std::nullopt;
}
Ex opx(unsigned opc, const Ex& a, const Ex& b) {
    if (a.isConst() && b.isConst())
        if (auto k = fold(opc, a.c, b.c))
            return konst(*k);
    std::string n  = std::string(Instruction::getOpcodeName(opc)) + "(" + str(a) + "; " + str(b) + ")";
    int         id = atomId(n);
    atoms[id].opc  = opc;
    atoms[id].a    = a;
    atoms[id].b    = b;
    Ex e;
    e.t[id] = 1;
    return e;
}
// value of an expression when the atoms in `val` have the given values
std::optional<int64_t> evalx(const Ex& e, const std::map<int, int64_t>& val) {
    int64_t r = e.c;
    for (auto& t : e.t) {
        auto it = val.find(t.first);
        if (it != val.end()) {
            r += t.second * it->second;
            continue;
        }
        Atom& A = atoms[t.first];
        if (!A.opc && A.name.compare(0, 6, "field+") == 0) { // any other field is independent of the capacity
            r += t.second;
            continue;
        }
        if (!A.opc)
            return std::nullopt;
        auto x = evalx(A.a, val), y = evalx(A.b, val);
        auto z = x && y ? fold(A.opc, *x, *y) : std::nullopt;
        if (!z)
            return std::nullopt;
        r += t.second * *z;
    }
    return r;
}

struct Event {
    bool        mem = false; // block of memory reached through `what`; else one word of value `what`
    Ex          what, size;
    std::string show() const { return mem ? "block at " + str(what) + " of " + str(size) + " bytes" : "word " + str(what); }
    bool        operator==(const Event& o) const { return mem == o.mem && what == o.what && size == o.size; }
};
struct Path {
    std::vector<Event>    ev;
    std::map<int, bool>   zero; // atom -> known zero / known non-zero
    bool operator==(const Path& o) const { return ev == o.ev && zero == o.zero; }
};
std::map<int, std::vector<Event>> seqs;
int seqId(const std::vector<Event>& v) {
    std::string k = "ds:";
    for (auto& e : v)
        k += std::to_string(e.mem) + "/" + std::to_string(exId(e.what)) + "/" + std::to_string(exId(e.size)) + ";";
    int id   = intern(k);
    seqs[id] = v;
    return id;
}
std::map<std::string, Ex> allocSize; // atom name -> size

enum class Mode { Dump, Load };
class DumpRule : public Rule {
public:
    ACtx&             C;
    const Function&   F;
    Mode              mode;
    bool              par;
    const Path*       P = nullptr;    // the dump being loaded
    std::vector<Ex>   header;         // words dumped before any submap
    std::vector<Path> out;            // dump paths found
    std::vector<Ex>   outHeader;
    std::set<int64_t> fields, ptrFields;
    long              N = 1;
    bool              mismatch = false; // load: the header read differs from the one dumped
    bool              report   = true;
    std::set<const BasicBlock*> headers;
    const int EV = intern("d:ev"), REG = intern("d:reg"), FAIL = intern("d:fail"), NEV = intern("d:nev"), HDR = intern("d:hdr"), WROTE = intern("d:wrote"), LOCKED = intern("d:locked");
    DumpRule(ACtx& c, const Function& f, Mode m, bool p)
        : C(c)
        , F(f)
        , mode(m)
        , par(p) {
        DominatorTree DT(const_cast<Function&>(f));
        for (auto& B : f)
            for (auto* p : predecessors(&B))
                if (DT.dominates(&B, p))
                    headers.insert(&B);
        int n = 0;
        for (auto& I : instructions(f))
            num[&I] = ++n;
    }
    std::map<const Value*, int> num;
    void bad(const std::string& prop, const std::string& m, const Instruction* I) {
        if (report)
            C.R.violate(prop, C.op.name, m, whereOf(I));
    }
    int vcell(const Value* v) { return intern("dv:" + std::to_string((uintptr_t)v)); }
    int mcell(int base, int64_t off) { return intern("dm:" + std::to_string(base) + ":" + std::to_string(off)); }
    Ex  exprOf(const Value* v, const Env& env, const PS& ps, int depth = 0) {
        v = env.resolve(v);
        if (int id = ps.get(vcell(v)))
            return exs[id];
        if (isa<ConstantPointerNull>(v))
            return konst(0);
        if (!v->getType()->isPointerTy())
            if (auto k = env.evalInt(v))
                return konst(*k);
        if (depth < 24) {
            if (auto* G = dyn_cast<GEPOperator>(v)) {
                MapVector<Value*, APInt> var;
                APInt                    off(64, 0);
                if (G->collectOffset(env.DL, 64, var, off)) {
                    Ex r = exprOf(G->getPointerOperand(), env, ps, depth + 1);
                    r.c += off.getSExtValue();
                    for (auto& t : var)
                        r = addx(r, exprOf(t.first, env, ps, depth + 1), t.second.getSExtValue());
                    return r;
                }
            }
            if (auto* O = dyn_cast<Operator>(v)) {
                switch (O->getOpcode()) {
                case Instruction::Add: return addx(exprOf(O->getOperand(0), env, ps, depth + 1), exprOf(O->getOperand(1), env, ps, depth + 1));
                case Instruction::Sub: return addx(exprOf(O->getOperand(0), env, ps, depth + 1), exprOf(O->getOperand(1), env, ps, depth + 1), -1);
                case Instruction::Mul:
                case Instruction::Shl:
                case Instruction::And:
                case Instruction::Or:
                case Instruction::Xor:
                case Instruction::LShr:
                case Instruction::UDiv:
                case Instruction::URem: {
                    Ex a = exprOf(O->getOperand(0), env, ps, depth + 1), b = exprOf(O->getOperand(1), env, ps, depth + 1);
                    if (b.isConst() && O->getOpcode() == Instruction::Mul)
                        return scale(a, b.c);
                    if (b.isConst() && O->getOpcode() == Instruction::Shl && b.c < 32)
                        return scale(a, (int64_t)1 << b.c);
                    return opx(O->getOpcode(), a, b);
                }
                case Instruction::ZExt:
                case Instruction::SExt:
                case Instruction::PtrToInt:
                case Instruction::IntToPtr:
                case Instruction::BitCast:
                case Instruction::Freeze: return exprOf(O->getOperand(0), env, ps, depth + 1);
                case Instruction::Select:
                    if (auto k = env.evalInt(O->getOperand(0)))
                        return exprOf(O->getOperand(*k ? 1 : 2), env, ps, depth + 1);
                    break;
                default: break;
                }
            }
        }
        if (auto* A = dyn_cast<Argument>(v))
            return leaf("arg" + std::to_string(A->getArgNo()));
        if (auto* G = dyn_cast<GlobalValue>(v))
            return leaf("@" + G->getName().str());
        return leaf((isa<AllocaInst>(v) ? "local%" : isAllocCall(v) ? "new%" : "value%") + std::to_string(num.count(v) ? num[v] : (int)(uintptr_t)v));
    }
    // place of a word the rule models: base 0 is the table (the container, or the submap whose lock is held), others are locals
    bool place(const Ex& e, const PS& ps, int& base, int64_t& off) {
        if (e.t.size() != 1 || e.t.begin()->second != 1)
            return false;
        int         a = e.t.begin()->first;
        const auto& n = atoms[a].name;
        off           = e.c;
        if (n == "arg0") {
            base = 0;
            if (par) {
                int r = ps.get(REG);
                if (!r)
                    return false;
                off -= r - 1;
                return off >= 0;
            }
            return true;
        }
        if (n.compare(0, 6, "local%") == 0) {
            base = a;
            return true;
        }
        return false;
    }
    int64_t capField = -1;
    Ex contents(int base, int64_t off, const PS& ps) {
        if (int id = ps.get(mcell(base, off)))
            return exs[id];
        if (base == 0 && mode == Mode::Load && capField >= 0 && ps.get(intern("dz:" + std::to_string(atomId("old+" + std::to_string(capField))))) == 1)
            return konst(0); // a container without capacity is as default constructed
        if (base == 0)
            return leaf((mode == Mode::Dump ? "field+" : "old+") + std::to_string(off));
        return leaf("uninit" + std::to_string(base) + "+" + std::to_string(off));
    }
    void setv(const Value* v, const Ex& e, FlowCtx& c) {
        c.ps.set(vcell(v), exId(e));
        if (e.isConst() && v->getType()->isIntegerTy())
            c.env.f[v] = AV{ AV::Const, e.c, nullptr };
    }
    std::optional<bool> knownZero(const Ex& d, const PS& ps) {
        if (d.isConst())
            return d.c == 0;
        if (d.c == 0 && d.t.size() == 1) {
            int a = d.t.begin()->first;
            if (int z = ps.get(intern("dz:" + std::to_string(a))))
                return z == 1;
            if (P) {
                auto it = P->zero.find(a);
                if (it != P->zero.end())
                    return it->second;
                for (auto& e : P->ev) // blocks are dumped only for tables that have storage
                    if (e.mem && e.size.t.count(a) && e.size.t.size() == 1)
                        return false;
            }
            const auto& n = atoms[a].name;
            if (n.compare(0, 4, "new%") == 0)
                return false;
        }
        if (d.t.size() == 1) {
            const auto& n = atoms[d.t.begin()->first].name;
            if (n == "othercount" && std::abs(d.c) == N)
                return false;
            if (n.compare(0, 4, "new%") == 0 || n.compare(0, 6, "local%") == 0 || n.compare(0, 3, "arg") == 0)
                if (d.t.begin()->second == 1)
                    return false;
        }
        return std::nullopt;
    }
    std::optional<bool> evalEq(const Value* a, const Value* b, const Env& env, const PS& ps) override {
        return knownZero(addx(exprOf(a, env, ps), exprOf(b, env, ps), -1), ps);
    }
    void onEdge(const BasicBlock* from, const BasicBlock* to, FlowCtx& c) override {
        auto* B = dyn_cast<BranchInst>(from->getTerminator());
        if (B && B->isConditional() && B->getSuccessor(0) != B->getSuccessor(1))
            if (auto* X = dyn_cast<ICmpInst>(B->getCondition()))
                if (X->isEquality()) {
                    Ex d = addx(exprOf(X->getOperand(0), c.env, c.ps), exprOf(X->getOperand(1), c.env, c.ps), -1);
                    if (d.c == 0 && d.t.size() == 1) {
                        const auto& n = atoms[d.t.begin()->first].name;
                        bool        z = (X->getPredicate() == CmpInst::ICMP_EQ) == (to == B->getSuccessor(0));
                        if (n.compare(0, 6, "field+") == 0 || n.compare(0, 4, "old+") == 0)
                            c.ps.set(intern("dz:" + std::to_string(d.t.begin()->first)), z ? 1 : 2);
                    }
                }
        // phis take the value of the edge
        std::vector<std::pair<const PHINode*, int>> upd;
        for (const PHINode& Ph : to->phis()) {
            const Value* v = Ph.getIncomingValueForBlock(from);
            int          id = 0;
            if (!isa<UndefValue>(v) && (Ph.getType()->isPointerTy() || Ph.getType()->isIntegerTy())) {
                Ex e = exprOf(v, c.env, c.ps);
                bool opaque = e.t.size() == 1 && e.c == 0 && atoms[e.t.begin()->first].name.compare(0, 6, "value%") == 0;
                bool keep   = !opaque;
                if (headers.count(to))
                    keep = keep && std::abs(e.c) <= 65536 && (e.isConst() ? std::abs(e.c) <= (par ? 4096 : 64) : e.t.size() == 1 && atoms[e.t.begin()->first].name == "arg0");
                if (keep)
                    id = exId(e);
            }
            upd.push_back({ &Ph, id });
        }
        for (auto& u : upd)
            c.ps.set(vcell(u.first), u.second);
    }
    void onPhi(const PHINode* Ph, FlowCtx& c) override {
        int id = c.ps.get(vcell(Ph));
        if (id && exs[id].isConst() && Ph->getType()->isIntegerTy())
            c.env.f[Ph] = AV{ AV::Const, exs[id].c, nullptr };
        else if (!id)
            c.env.f.erase(Ph);
    }
    bool wantsFork(const CallBase* CB) override {
        std::string n = calleeName(CB);
        return (n == "w_save__R_" || n == "w_load__W_") && !CB->getType()->isVoidTy();
    }
    void onForked(const CallBase*, bool b, FlowCtx& c) override {
        if (!b)
            c.ps.set(FAIL, 1); // the archive refused; what happens then is not part of the round trip
    }
    void onUnwind(const CallBase*, FlowCtx& c) override { c.ps.set(FAIL, 1); }
    void clearTable(FlowCtx& c) {
        for (auto it = c.ps.m.begin(); it != c.ps.m.end();) {
            const std::string& s = internName(it->first);
            if (s.compare(0, 3, "dv:") == 0 && s.size() > 3) {
                // keep loop counters: values that do not mention the table
                bool keep = false;
                for (auto* H : headers)
                    for (auto& Ph : H->phis())
                        if (vcell(&Ph) == it->first)
                            keep = true;
                if (keep) {
                    ++it;
                    continue;
                }
                it = c.ps.m.erase(it);
            } else if (s.compare(0, 5, "dm:0:") == 0 || s.compare(0, 3, "dz:") == 0 || s.compare(0, 3, "dl:") == 0 || s.compare(0, 3, "dw:") == 0)
                it = c.ps.m.erase(it);
            else
                ++it;
        }
        c.ps.set(EV, 0);
        c.ps.set(NEV, 0);
    }
    void segmentEnd(const Instruction* I, FlowCtx& c) {
        if (c.ps.get(FAIL))
            return;
        if (mode == Mode::Dump) {
            Path p;
            p.ev = seqs[c.ps.get(EV)];
            for (auto& kv : c.ps.m) {
                const std::string& s = internName(kv.first);
                if (s.compare(0, 3, "dz:") == 0)
                    p.zero[std::stoi(s.substr(3))] = kv.second == 1;
            }
            if (std::find(out.begin(), out.end(), p) == out.end())
                out.push_back(p);
            return;
        }
        if (mismatch || !P)
            return;
        C.R.count("C25.obligations");
        if (c.ps.get(NEV) != (int)P->ev.size())
            bad("C25", "load stops after " + std::to_string(c.ps.get(NEV)) + " of the " + std::to_string(P->ev.size()) + " pieces dump writes (next: " + P->ev[c.ps.get(NEV)].show() + ")", I);
        // storage known to exist?
        bool storage = false;
        for (auto& e : P->ev)
            storage |= e.mem;
        for (auto f : fields) {
            Ex   now = contents(0, f, c.ps);
            Ex   was = leaf("field+" + std::to_string(f));
            bool inP = false;
            for (auto& e : P->ev)
                inP |= !e.mem && e.what == was;
            C.R.count(ptrFields.count(f) ? "C26.obligations" : "C25.obligations");
            if (ptrFields.count(f)) {
                bool fresh = now.t.size() >= 1 && std::any_of(now.t.begin(), now.t.end(), [](auto& t) { return atoms[t.first].name.compare(0, 4, "new%") == 0; });
                bool old = std::any_of(now.t.begin(), now.t.end(), [](auto& t) { return atoms[t.first].name.compare(0, 4, "old+") == 0; });
                if (storage && !fresh)
                    bad("C26", "load leaves a table pointer (at +" + std::to_string(f) + ") that does not point to storage it allocated", I);
                if (old)
                    bad("C26", "load keeps the old table pointer (at +" + std::to_string(f) + ")", I);
                continue;
            }
            if (inP) {
                auto z  = knownZero(was, c.ps);
                bool ok = now == was || (z && *z && now.isConst() && now.c == 0);
                if (!ok)
                    bad("C25", "the field dumped from +" + std::to_string(f) + " is not restored there: it ends as " + str(now), I);
            } else {
                if (now == leaf("old+" + std::to_string(f)))
                    bad("C25", "the field at +" + std::to_string(f) + " is neither dumped nor set by load", I);
                else if (storage && now.isConst())
                    bad("C25", "the field at +" + std::to_string(f) + " is not dumped and load sets it to a constant", I);
            }
        }
        // blocks
        for (size_t j = 0; j < P->ev.size(); ++j) {
            if (!P->ev[j].mem)
                continue;
            int pid = c.ps.get(intern("dl:" + std::to_string(j)));
            if (!pid)
                continue;
            Ex      dst = exs[pid];
            int64_t f   = -1;
            for (auto& t : P->ev[j].what.t)
                f = std::stol(atoms[t.first].name.substr(6));
            Ex now = contents(0, f, c.ps);
            C.R.count("C25.obligations");
            if (!(addx(now, konst(P->ev[j].what.c)) == dst))
                bad("C25", "the block dumped through the pointer at +" + std::to_string(f) + " is loaded to a place that pointer does not denote", I);
            // extent within the allocation, and not over another block
            std::string an;
            for (auto& t : dst.t)
                if (atoms[t.first].name.compare(0, 4, "new%") == 0)
                    an = atoms[t.first].name;
            if (an.empty() || !allocSize.count(an))
                continue;
            Ex  off = addx(dst, leaf(an), -1);
            int cap = P->ev[j].size.t.size() == 1 ? P->ev[j].size.t.begin()->first : 0;
            if (!cap)
                continue;
            for (int k = 1; k <= 40; ++k) {
                std::map<int, int64_t> val{ { cap, ((int64_t)1 << k) - 1 } };
                auto o = evalx(off, val), n = evalx(P->ev[j].size, val), tot = evalx(allocSize[an], val);
                if (!o || !n || !tot)
                    break;
                C.R.count("C26.obligations");
                if (int mid = c.ps.get(intern("dw:" + std::to_string(pid)))) {
                    auto ms = evalx(exs[mid], val);
                    if (ms && *n < *ms) {
                        bad("C25", "for capacity " + std::to_string(val[cap]) + " only " + std::to_string(*n) + " of the " + std::to_string(*ms) + " control bytes are dumped and loaded", I);
                        break;
                    }
                }
                if (*o < 0 || *o + *n > *tot) {
                    bad("C26", "for capacity " + std::to_string(val[cap]) + " the loaded block [" + std::to_string(*o) + ", " + std::to_string(*o + *n) + ") exceeds the " + std::to_string(*tot) + " bytes allocated", I);
                    break;
                }
                for (size_t i = 0; i < P->ev.size(); ++i) {
                    int qid = c.ps.get(intern("dl:" + std::to_string(i)));
                    if (i == j || !qid || !P->ev[i].mem)
                        continue;
                    auto o2 = evalx(addx(exs[qid], leaf(an), -1), val), n2 = evalx(P->ev[i].size, val);
                    if (o2 && n2 && *o < *o2 + *n2 && *o2 < *o + *n) {
                        bad("C25", "for capacity " + std::to_string(val[cap]) + " two loaded blocks overlap", I);
                        k = 99;
                        break;
                    }
                }
            }
        }
    }
    void loadWord(int base, int64_t off, const Instruction* I, FlowCtx& c) {
        int j = c.ps.get(NEV);
        if (mismatch || (par && !c.ps.get(REG))) { // header of a parallel container
            size_t h = c.ps.get(HDR);
            C.R.count("C26.obligations");
            if (h >= header.size()) {
                bad("C25", "load reads more than the " + std::to_string(header.size()) + " word(s) dump writes before the submaps", I);
                return;
            }
            c.ps.set(HDR, h + 1);
            c.ps.set(mcell(base, off), exId(mismatch ? leaf("othercount") : header[h]));
            return;
        }
        if (j >= (int)P->ev.size()) {
            bad("C25", "load reads more than dump writes on this path", I);
            return;
        }
        if (P->ev[j].mem) {
            bad("C25", "load reads a word where dump writes a " + P->ev[j].show(), I);
            c.ps.set(FAIL, 1);
            return;
        }
        c.ps.set(NEV, j + 1);
        c.ps.set(mcell(base, off), exId(P->ev[j].what));
    }
    void onInst(const Instruction* I, FlowCtx& c) override {
        int     base;
        int64_t off;
        if (auto* L = dyn_cast<LoadInst>(I)) {
            auto& DL = F.getParent()->getDataLayout();
            c.ps.set(vcell(L), 0);
            if (DL.getTypeStoreSize(L->getType()) != 8)
                return;
            Ex p = exprOf(L->getPointerOperand(), c.env, c.ps);
            if (place(p, c.ps, base, off))
                setv(L, contents(base, off, c.ps), c);
            else
                globalConst(p, L, c);
            return;
        }
        if (auto* S = dyn_cast<StoreInst>(I)) {
            Ex p = exprOf(S->getPointerOperand(), c.env, c.ps);
            if (place(p, c.ps, base, off)) {
                if (base == 0 && mode == Mode::Load)
                    touched(I, c);
                c.ps.set(mcell(base, off), exId(exprOf(S->getValueOperand(), c.env, c.ps)));
            } else
                clobber(p, I, c);
            return;
        }
        if (auto* M = dyn_cast<AnyMemIntrinsic>(I)) {
            Ex   p = exprOf(M->getRawDest(), c.env, c.ps);
            auto k = c.env.evalInt(M->getLength());
            if (place(p, c.ps, base, off)) {
                if (base == 0 && mode == Mode::Load)
                    touched(I, c);
                std::vector<Ex> vals;
                int             b2;
                int64_t         o2;
                auto*           MT = dyn_cast<AnyMemTransferInst>(M);
                for (int64_t i = 0; k && i + 8 <= *k && i < 512; i += 8) {
                    Ex v = leaf("memop" + std::to_string(num[I]));
                    if (MT && place(exprOf(MT->getRawSource(), c.env, c.ps), c.ps, b2, o2))
                        v = contents(b2, o2 + i, c.ps);
                    else if (!MT) {
                        auto z = c.env.evalInt(cast<AnyMemSetInst>(M)->getValue());
                        if (z && *z == 0)
                            v = konst(0);
                    }
                    vals.push_back(v);
                }
                for (size_t i = 0; i < vals.size(); ++i)
                    c.ps.set(mcell(base, off + 8 * i), exId(vals[i]));
            } else {
                if (isa<AnyMemSetInst>(M) && mode == Mode::Load)
                    c.ps.set(intern("dw:" + std::to_string(exId(p))), exId(exprOf(M->getLength(), c.env, c.ps)));
                clobber(p, I, c);
            }
            return;
        }
        auto* CB = dyn_cast<CallBase>(I);
        if (!CB)
            return;
        std::string n = calleeName(CB);
        if (isAllocCall(CB)) {
            std::string nm = "new%" + std::to_string(num[I]);
            allocSize[nm]  = exprOf(CB->getArgOperand(0), c.env, c.ps);
            return;
        }
        if (par && isLockFn(n)) {
            Ex   p = exprOf(CB->getArgOperand(0), c.env, c.ps);
            bool un = n.find("unlock") != std::string::npos;
            if (!un) {
                if (mismatch)
                    bad("C26", "goes on to the submaps although the number of submaps in the data differs", I);
                if (mode == Mode::Load && !mismatch && c.ps.get(HDR) < (int)header.size() && !c.ps.get(REG)) {
                    C.R.count("C26.obligations");
                    bad("C26", "changes a submap before the number of submaps in the data has been read", I);
                }
                if (p.t.size() == 1 && atoms[p.t.begin()->first].name == "arg0") {
                    clearTable(c);
                    c.ps.set(REG, p.c + 1);
                    int k = intern("dk:" + std::to_string(p.c));
                    if (c.ps.get(k) && !c.ps.get(FAIL))
                        bad("C25", "handles the same submap twice", I);
                    c.ps.set(k, 1);
                } else if (!c.ps.get(FAIL))
                    c.ps.set(intern("d:unknownlock"), 1);
            } else if (c.ps.get(REG)) {
                segmentEnd(I, c);
                clearTable(c);
                c.ps.set(REG, 0);
            }
            return;
        }
        if (n == "w_save__R_" && mode == Mode::Dump) {
            Ex p = exprOf(CB->getArgOperand(0), c.env, c.ps), sz = exprOf(CB->getArgOperand(1), c.env, c.ps);
            auto              ev = seqs[c.ps.get(EV)];
            std::vector<Ex>   words;
            const Constant*   G = nullptr;
            for (auto& t : p.t)
                if (atoms[t.first].name[0] == '@')
                    if (auto* gv = C.M.getNamedGlobal(atoms[t.first].name.substr(1)))
                        if (gv->isConstant() && gv->hasInitializer() && p.t.size() == 1)
                            G = gv->getInitializer();
            C.R.count("C25.obligations");
            if (sz.isConst() && sz.c % 8 == 0 && sz.c <= 512 && (G || place(p, c.ps, base, off))) {
                for (int64_t i = 0; i < sz.c; i += 8) {
                    if (G) {
                        auto* k = ConstantFoldLoadFromConst(const_cast<Constant*>(G), Type::getInt64Ty(C.M.getContext()), APInt(64, p.c + i), C.M.getDataLayout());
                        auto* CI = dyn_cast_or_null<ConstantInt>(k);
                        words.push_back(CI ? konst(CI->getSExtValue()) : leaf("global"));
                    } else
                        words.push_back(contents(base, off + i, c.ps));
                }
                if (par && !c.ps.get(REG)) {
                    for (auto& w : words)
                        if (std::find(outHeader.begin(), outHeader.end(), w) == outHeader.end())
                            outHeader.push_back(w);
                    return;
                }
                for (auto& w : words) {
                    Event e;
                    e.what = w;
                    e.size = konst(8);
                    ev.push_back(e);
                }
            } else {
                Event e;
                e.mem  = true;
                e.what = p;
                e.size = sz;
                ev.push_back(e);
                bool viaField = p.t.size() == 1 && p.t.begin()->second == 1 && atoms[p.t.begin()->first].name.compare(0, 6, "field+") == 0;
                if (!viaField)
                    C.R.errors.push_back("dump: cannot name what is saved: " + e.show() + " at " + whereOf(I));
            }
            if (ev.size() > 64) {
                C.R.errors.push_back("dump: unbounded sequence at " + whereOf(I));
                c.ps.set(FAIL, 1);
                return;
            }
            c.ps.set(EV, seqId(ev));
            return;
        }
        if (n == "w_load__W_" && mode == Mode::Load) {
            if (c.ps.get(FAIL))
                return;
            Ex p = exprOf(CB->getArgOperand(0), c.env, c.ps), sz = exprOf(CB->getArgOperand(1), c.env, c.ps);
            C.R.count("C25.obligations");
            if (sz.isConst() && sz.c % 8 == 0 && sz.c <= 512 && place(p, c.ps, base, off)) {
                if (base == 0)
                    touched(I, c);
                for (int64_t i = 0; i < sz.c; i += 8)
                    loadWord(base, off + i, I, c);
                if (base) // let the branch conditions see the value
                    for (int64_t i = 0; i < sz.c; i += 8) {
                        Ex e = contents(base, off + i, c.ps);
                        (void)e;
                    }
                return;
            }
            if (mismatch || (par && !c.ps.get(REG)))
                return;
            int j = c.ps.get(NEV);
            if (j >= (int)P->ev.size()) {
                bad("C25", "load reads more than dump writes on this path", I);
                return;
            }
            if (!P->ev[j].mem) {
                bad("C25", "load reads a block where dump writes the " + P->ev[j].show(), I);
                c.ps.set(FAIL, 1);
                return;
            }
            if (!(P->ev[j].size == sz))
                bad("C25", "load reads " + str(sz) + " bytes where dump writes " + str(P->ev[j].size), I);
            c.ps.set(intern("dl:" + std::to_string(j)), exId(p));
            c.ps.set(NEV, j + 1);
            return;
        }
        // other calls may change locals whose address they get
        for (auto& A : CB->args())
            if (A->getType()->isPointerTy() && !n.empty() && n.compare(0, 5, "llvm.") != 0 && n != "w_free__F_")
                if (place(exprOf(A, c.env, c.ps), c.ps, base, off) && base)
                    for (int64_t i = 0; i < 64; i += 8)
                        if (c.ps.get(mcell(base, off + i)) && !CB->onlyReadsMemory(CB->getArgOperandNo(&A)))
                            c.ps.set(mcell(base, off + i), exId(leaf("after" + std::to_string(num[I]))));
        c.ps.set(vcell(CB), 0);
    }
    void globalConst(const Ex& p, const LoadInst* L, FlowCtx& c) {
        if (p.t.size() != 1 || atoms[p.t.begin()->first].name[0] != '@')
            return;
        auto* gv = C.M.getNamedGlobal(atoms[p.t.begin()->first].name.substr(1));
        if (!gv || !gv->isConstant() || !gv->hasInitializer() || !L->getType()->isIntegerTy())
            return;
        auto* k = ConstantFoldLoadFromConst(const_cast<Constant*>(gv->getInitializer()), L->getType(), APInt(64, p.c), C.M.getDataLayout());
        if (auto* CI = dyn_cast_or_null<ConstantInt>(k))
            setv(L, konst(CI->getSExtValue()), c);
    }
    void touched(const Instruction* I, FlowCtx& c) {
        if (mismatch)
            bad("C26", "writes a submap although the number of submaps in the data differs", I);
    }
    void clobber(const Ex& p, const Instruction* I, FlowCtx& c) {
        if (mode != Mode::Load || !P || mismatch || c.ps.get(FAIL))
            return;
        for (auto& t : p.t) {
            if (atoms[t.first].name.compare(0, 4, "new%") != 0)
                continue;
            for (size_t j = 0; j < P->ev.size(); ++j)
                if (int id = c.ps.get(intern("dl:" + std::to_string(j))))
                    if (exs[id].t.count(t.first)) {
                        bad("C25", "overwrites table memory after it was loaded", I);
                        return;
                    }
        }
        if (p.t.size() == 1 && atoms[p.t.begin()->first].name == "arg0" && mismatch)
            touched(I, c);
    }
    void onRet(const ReturnInst* R, FlowCtx& c) override {
        if (c.ps.get(FAIL))
            return;
        auto t = R->getReturnValue() ? c.env.evalInt(R->getReturnValue()) : std::optional<int64_t>();
        if (mismatch) {
            C.R.count("C26.obligations");
            if (!t || (*t & 1))
                bad("C26", "does not report failure when the number of submaps in the data differs", R);
            return;
        }
        C.R.count("C25.obligations");
        if (R->getReturnValue() && R->getReturnValue()->getType()->isIntegerTy(1) && (!t || !(*t & 1)))
            bad("C25", mode == Mode::Dump ? "dump reports failure although the archive took everything" : "load refuses what dump writes", R);
        if (!par) {
            segmentEnd(R, c);
            return;
        }
        if (c.ps.get(intern("d:unknownlock")))
            return;
        long n = 0;
        for (auto& kv : c.ps.m)
            if (internName(kv.first).compare(0, 3, "dk:") == 0)
                ++n;
        if (n != N)
            bad("C25", "handles " + std::to_string(n) + " of the " + std::to_string(N) + " submaps", R);
        if (mode == Mode::Load && c.ps.get(HDR) != (int)header.size())
            bad("C25", "load does not read the words dump writes before the submaps", R);
    }
    void onThrowExit(const Instruction* I, FlowCtx& c) override {
        if (mode != Mode::Load || mismatch || par || capField < 0)
            return;
        // an exception from the allocation leaves the container destructible: no capacity without storage
        C.R.count("C26.obligations");
        Ex   cap = contents(0, capField, c.ps);
        auto z = knownZero(cap, c.ps);
        if (z && *z)
            return;
        bool owned = false;
        for (auto f : ptrFields) {
            Ex now = contents(0, f, c.ps);
            for (auto& t : now.t)
                owned |= atoms[t.first].name.compare(0, 4, "new%") == 0 || atoms[t.first].name.compare(0, 4, "old+") == 0;
        }
        if (!owned)
            bad("C26", "leaves by an exception with a recorded capacity but no storage", I);
    }
};

// word-sized fields the default constructor sets
void fieldsOf(ACtx& C, std::set<int64_t>& all, std::set<int64_t>& ptrs) {
    const Function* D = C.M.getFunction("op_default");
    if (!D || D->isDeclaration())
        return;
    DumpRule R(C, *D, Mode::Dump, false);
    R.report = false;
    Env env(C.M.getDataLayout());
    for (auto& I : instructions(*D)) {
        if (auto* S = dyn_cast<StoreInst>(&I)) {
            Lin l = env.lin(S->getPointerOperand());
            if (l.base == D->getArg(0) && l.terms.empty() && C.M.getDataLayout().getTypeStoreSize(S->getValueOperand()->getType()) == 8)
                all.insert(l.off);
        } else if (auto* M = dyn_cast<AnyMemSetInst>(&I)) {
            Lin  l = env.lin(M->getRawDest());
            auto k = env.evalInt(M->getLength());
            if (l.base == D->getArg(0) && l.terms.empty() && k)
                for (int64_t i = 0; i + 8 <= *k; i += 8)
                    all.insert(l.off + i);
        }
    }
    (void)ptrs;
}
int64_t queryField(ACtx& C, const char* op) {
    const Function* Q = C.M.getFunction(op);
    if (!Q || Q->isDeclaration())
        return -1;
    Env env(C.M.getDataLayout());
    for (auto& B : *Q)
        if (auto* R = dyn_cast<ReturnInst>(B.getTerminator()))
            if (auto* L = dyn_cast_or_null<LoadInst>(R->getReturnValue())) {
                Lin l = env.lin(L->getPointerOperand());
                if (l.base == Q->getArg(0) && l.terms.empty())
                    return l.off;
            }
    return -1;
}

void run(ACtx& C) {
    if (!C.op.has("loadop"))
        return;
    bool            par = C.op.has("whole");
    const Function* D   = C.M.getFunction("op_dump");
    if (!D || D->isDeclaration()) {
        C.R.errors.push_back("dump: no dump operation in the unit");
        return;
    }
    FlowStats st;
    OpSpec    dspec = C.op;
    dspec.name      = "op_dump";
    ACtx     DC{ C.M, *D, dspec, C.R, C.consts, C.prop };
    DumpRule dr(DC, *D, Mode::Dump, par);
    dr.N = par ? C.op.num("n", 1) : 1;
    if (!runFlow(*D, dr, st, 200000))
        C.R.errors.push_back("dump: state budget exceeded in op_dump");
    if (dr.out.empty()) {
        C.R.violate("C25", "op_dump", "no path on which the dump completes", whereOf(&*D->getEntryBlock().begin()));
        return;
    }
    std::set<int64_t> fields, ptrs;
    fieldsOf(C, fields, ptrs);
    for (auto& p : dr.out)
        for (auto& e : p.ev)
            for (auto& t : e.what.t)
                if (atoms[t.first].name.compare(0, 6, "field+") == 0) {
                    int64_t f = std::stol(atoms[t.first].name.substr(6));
                    fields.insert(f);
                    if (e.mem)
                        ptrs.insert(f);
                }
    if (ptrs.size() < 2)
        C.R.violate("C25", "op_dump", "dump never writes both the control bytes and the elements", whereOf(&*D->getEntryBlock().begin()));
    // a table that is not empty is written completely
    int64_t cap = queryField(C, "op_capacity");
    if (cap < 0) { // the field the extent of a block depends on
        std::set<int64_t> cs;
        for (auto& p : dr.out)
            for (auto& e : p.ev)
                if (e.mem)
                    for (auto& t : e.size.t)
                        if (atoms[t.first].name.compare(0, 6, "field+") == 0)
                            cs.insert(std::stol(atoms[t.first].name.substr(6)));
        if (cs.size() == 1)
            cap = *cs.begin();
    }
    long slot = C.consts.count("w_sizeof_slot") ? C.consts["w_sizeof_slot"] : 0;
    for (auto& p : dr.out) {
        bool someZero = false;
        for (auto& z : p.zero)
            someZero |= z.second;
        std::string shown;
        for (auto& e : p.ev)
            shown += (shown.empty() ? "" : ", ") + e.show();
        C.R.facts["dump"].push_back(C.op.name + ": " + shown);
        if (someZero)
            continue;
        C.R.count("C25.obligations");
        std::set<int64_t> got;
        bool              slots = false;
        for (auto& e : p.ev)
            if (e.mem) {
                for (auto& t : e.what.t)
                    got.insert(std::stol(atoms[t.first].name.substr(6)));
                if (slot && e.size.t.size() == 1 && e.size.c == 0 && e.size.t.begin()->second == slot &&
                    (cap < 0 || atoms[e.size.t.begin()->first].name == "field+" + std::to_string(cap)))
                    slots = true;
            }
        if (got != ptrs)
            C.R.violate("C25", "op_dump", "a table that is not empty is dumped without all of its blocks: " + shown, whereOf(&*D->getEntryBlock().begin()));
        else if (slot && !slots)
            C.R.violate("C25", "op_dump", "no block of the dump covers capacity elements of " + std::to_string(slot) + " bytes: " + shown, whereOf(&*D->getEntryBlock().begin()));
    }
    for (auto& p : dr.out) {
        DumpRule lr(C, C.F, Mode::Load, par);
        lr.P         = &p;
        lr.N         = dr.N;
        lr.header    = dr.outHeader;
        lr.fields    = fields;
        lr.ptrFields = ptrs;
        lr.capField  = cap;
        if (!runFlow(C.F, lr, st, 200000))
            C.R.errors.push_back("dump: state budget exceeded in " + C.op.name);
    }
    if (par) {
        DumpRule lr(C, C.F, Mode::Load, true);
        lr.P        = nullptr;
        lr.N        = dr.N;
        lr.header   = dr.outHeader;
        lr.mismatch = true;
        if (dr.outHeader.empty())
            C.R.violate("C26", "op_dump", "the number of submaps is not written", whereOf(&*D->getEntryBlock().begin()));
        else if (std::none_of(dr.outHeader.begin(), dr.outHeader.end(), [&](const Ex& e) { return e.isConst() && e.c == dr.N; }))
            C.R.violate("C26", "op_dump", "the number of submaps is not among the words written first", whereOf(&*D->getEntryBlock().begin()));
        if (!runFlow(C.F, lr, st, 200000))
            C.R.errors.push_back("dump: state budget exceeded in " + C.op.name);
    }
    C.R.count("dump.states", st.states);
}
RuleReg reg("dump", run);
} // namespace
