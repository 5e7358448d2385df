#pragma once
#include "engine.h"

struct ACtx {
    Module&                  M;
    const Function&          F;
    const OpSpec&            op;
    Report&                  R;
    std::map<std::string, long> consts; // w_* size_t constants of the unit
    std::string              prop;      // property asked for ("" = all)
};
using RuleFn = void (*)(ACtx&);
void registerRule(const std::string& name, RuleFn fn);
RuleFn findRule(const std::string& name);
struct RuleReg {
    RuleReg(const char* n, RuleFn f) { registerRule(n, f); }
};

// ---- shared helpers
std::vector<const Value*> contArgs(const ACtx& C);

// one region address an access depends on
struct Oblig {
    Lin raw, res;
};
// all region addresses (rooted in one of `roots`) that pointer p was obtained from; unresolved counts pointers
// loaded from memory the analysis does not track
void obligations(const Value* p, const Env& env, const std::set<const Value*>& roots, std::vector<Oblig>& out, int* unresolved = nullptr);

struct Access {
    const Value* ptr;
    bool         write;
};
// memory accesses of an instruction (loads, stores, mem intrinsics, witness calls, unknown calls)
void accessesOf(const Instruction* I, std::vector<Access>& out);

bool isLockFn(const std::string& n);

// leaves of an expression: loads, phis, calls, arguments
void leavesOf(const Value* v, const Env& env, std::set<const Value*>& leaves, bool throughPhi, int budget = 400);

// ---- provenance: every place a pointer may come from on this path (arguments, allocations, allocas, globals)
struct Roots {
    std::set<const Value*> direct; // address lies inside the object the root denotes
    std::set<const Value*> deep;   // address was obtained by loading a pointer from memory of the root
    bool                   unknown = false;
    bool has(const std::set<const Value*>& s) const {
        for (auto* v : s)
            if (direct.count(v) || deep.count(v))
                return true;
        return false;
    }
};
// locals: also follow pointers parked in local variables, through every store to them
void rootsOf(const Value* p, const Env& env, Roots& out, bool locals = false);
bool isAllocCall(const Value* v); // w_alloc, operator new, malloc
bool isFreeCall(const CallBase* C, const Value** p = nullptr, const Value** size = nullptr);
// do a and b denote the same address, looking through repeated loads of the same location?
bool samePlace(const Value* a, const Value* b, const Env& env, int64_t* diff = nullptr, int depth = 0);
bool sameVal(const Value* a, const Value* b, const Env& env, int depth = 0);

// element events
struct Elem {
    bool is = false, key = false, construct = false, destroy = false, assign = false, move = false, copy = false, init = false;
    const Value *dst = nullptr, *src = nullptr;
};
Elem elemOf(const CallBase* C);
std::set<const Value*> argSet(const ACtx& C, const std::string& tag);
std::optional<bool>    truth(const Value* v, const Env& env);
// is a == b, given that elem is the address of an element of a hash table (which may be null)?
std::optional<bool> eqWithMatch(const Value* elem, const Value* a, const Value* b, const Env& env);
