// Common machinery: IR normalisation, SSA fact environment, pointer forms, ESP-style dataflow.
#pragma once
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

// ---------------------------------------------------------------- spec of one analysed operation
struct OpSpec {
    std::string name;
    std::map<std::string, std::string> kv; // tags
    bool        has(const std::string& k) const { return kv.count(k) != 0; }
    std::string get(const std::string& k, const std::string& d = "") const {
        auto it = kv.find(k);
        return it == kv.end() ? d : it->second;
    }
    long num(const std::string& k, long d = 0) const { return has(k) ? std::stol(get(k)) : d; }
};

struct Violation {
    std::string rule, op, msg, where;
};
struct Report {
    std::vector<Violation>           violations;
    std::map<std::string, long>      counts; // obligations etc, per rule
    std::map<std::string, std::set<std::string>> opsPerRule;
    std::vector<std::string>         errors;
    std::set<std::string>            seen;
    std::map<std::string, std::vector<std::string>> facts; // machine readable by-products (e.g. dump sequences)
    void violate(const std::string& rule, const std::string& op, const std::string& msg, const std::string& where) {
        std::string k = rule + "|" + op + "|" + msg + "|" + where;
        if (seen.insert(k).second)
            violations.push_back({ rule, op, msg, where });
    }
    void count(const std::string& k, long n = 1) { counts[k] += n; }
};

std::string whereOf(const Instruction* I);
std::string calleeName(const Instruction* I); // "" if not a direct call
inline const CallBase* asCall(const Instruction* I) { return dyn_cast<CallBase>(I); }

// ---------------------------------------------------------------- facts on SSA values
struct AV {
    enum K { Const, Alias } k = Const;
    int64_t      c            = 0;
    const Value* v            = nullptr;
    bool         operator==(const AV& o) const { return k == o.k && c == o.c && v == o.v; }
};
using Facts = std::map<const Value*, AV>;

// linear pointer form: base + sum coef*val + off
struct Lin {
    const Value*                       base = nullptr;
    std::map<const Value*, int64_t>    terms;
    int64_t                            off = 0;
    bool same(const Lin& o) const { return base == o.base && terms == o.terms && off == o.off; }
    bool sameSym(const Lin& o) const { return base == o.base && terms == o.terms; }
};

class Rule;
struct PS;
class Env {
public:
    Rule*     rule = nullptr; // asked about comparisons the facts cannot decide
    const PS* psp  = nullptr;
    const DataLayout& DL;
    Facts             f;
    std::map<std::pair<const Value*, int64_t>, std::pair<int64_t, AV>> mem; // contents of local variables kept in memory
    void memEffect(const Instruction* I);
    void memForget(const Value* p, int64_t size); // size < 0: unknown extent
    std::set<const Value*> fresh; // must-information maintained for rules that ask for it (see Rule::trackFresh)
    explicit Env(const DataLayout& dl)
        : DL(dl) {}
    const Value*           resolve(const Value* v) const; // follow alias facts and no-op casts
    std::optional<int64_t> evalInt(const Value* v, int depth = 0) const;
    bool                   structEq(const Value* a, const Value* b, int depth = 0) const;
    Lin                    lin(const Value* p, bool useFacts = true) const;
    void                   linIdx(const Value* idx, int64_t scale, Lin& out, bool useFacts, int depth = 0) const;
    void                   redefine(const Value* v);
    void                   learn(const Value* cond, bool val, int depth = 0);
    // known disequality of two pointers
    bool knownDifferent(const Value* a, const Value* b) const;
};

// property state: small int map
struct PS {
    std::map<int, int> m;
    int                get(int k) const {
        auto it = m.find(k);
        return it == m.end() ? 0 : it->second;
    }
    void set(int k, int v) {
        if (v)
            m[k] = v;
        else
            m.erase(k);
    }
    void bump(int k, int cap = 2) { set(k, std::min(cap, get(k) + 1)); }
    bool operator<(const PS& o) const { return m < o.m; }
    bool operator==(const PS& o) const { return m == o.m; }
};

int                intern(const std::string& s);
const std::string& internName(int i);

struct FlowCtx {
    PS&  ps;
    Env& env;
};

class Rule {
public:
    virtual ~Rule() = default;
    virtual void init(PS&) {}
    virtual void start(FlowCtx&) {} // facts assumed on entry
    virtual bool trackFresh() { return false; } // record every value computed since the rule last cleared env.fresh
    // effect of an instruction on the normal path
    virtual void onInst(const Instruction*, FlowCtx&) {}
    // effect of a call that unwinds (invoke unwind edge, or propagates out)
    virtual void onUnwind(const CallBase*, FlowCtx&) {}
    // fork on the i1/int result of a call?
    virtual bool wantsFork(const CallBase*) { return false; }
    virtual void onForked(const CallBase*, bool, FlowCtx&) {}
    // is a == b on this path?  (only consulted when the facts do not tell)
    virtual std::optional<bool> evalEq(const Value*, const Value*, const Env&, const PS&) { return std::nullopt; }
    virtual bool                unwinds(const CallBase*, FlowCtx&) { return true; }
    virtual void onRet(const ReturnInst*, FlowCtx&) {}
    virtual void onThrowExit(const Instruction*, FlowCtx&) {}
    virtual void onPhi(const PHINode*, FlowCtx&) {} // phi redefined (after facts were updated)
    virtual void onEdge(const BasicBlock*, const BasicBlock*, FlowCtx&) {}
};

struct FlowStats {
    long blocks = 0, states = 0, steps = 0;
};

// run rule over F; returns false when the state budget is exceeded
bool runFlow(const Function& F, Rule& rule, FlowStats& st, long budget = 60000);

bool mayThrow(const CallBase* C);

// ---------------------------------------------------------------- roles of witness functions
struct Role {
    std::string kind; // between "w_" and "__"
    std::string acc;  // per-argument access letters: R W _ F(ree)
};
std::optional<Role> roleOf(const CallBase* C);

// ---------------------------------------------------------------- provenance
// "home" of a pointer: the place it was obtained from.  depth 0 = inside the object the root points to,
// depth >=1 = memory reached through a pointer loaded from it.
struct Home {
    const Value* root = nullptr; // Argument, Alloca, Global, Call, ...
    Lin          at;             // linear form of the last embedded address (depth>=1: address the pointer was loaded from)
    int          depth = 0;
};
// all homes of pointer p (path-resolved through facts when env given)
void homesOf(const Value* p, const Env& env, std::vector<Home>& out);

void lowerPointerSelects(Function& F);
// normalise: inline everything etc.
bool normalise(Module& M, std::string& err, const std::set<std::string>& ops);
