// Vocabulary of the witness programs.  Every user-supplied type is opaque: its operations are calls to
// undefined functions named w_<kind>__<one letter per argument: R reads, W writes, F frees, _ value>.
// The analyser inlines all of gtl into the op_* functions, so an op becomes one control-flow graph over
// these calls.  Nothing here is ever linked or run.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>

extern "C" {
// keys
void   w_kinit__W(void*);
void   w_kconv__WR(void*, const void*);
void   w_kcopy__WR(void*, const void*);
void   w_kmove__WW(void*, void*) noexcept;
void   w_kcopyassign__WR(void*, const void*);
void   w_kmoveassign__WW(void*, void*) noexcept;
void   w_kdtor__W(void*) noexcept;
// values
void   w_vinit__W(void*);
void   w_vcopy__WR(void*, const void*);
void   w_vmove__WW(void*, void*) noexcept;
void   w_vtmove__WW(void*, void*);
void   w_vtmoveassign__WW(void*, void*);
void   w_vcopyassign__WR(void*, const void*);
void   w_vmoveassign__WW(void*, void*) noexcept;
void   w_vdtor__W(void*) noexcept;
bool   w_veq__RR(const void*, const void*);
// functors
size_t w_hash__R(const void*);
bool   w_eq__RR(const void*, const void*);
bool   w_less__RR(const void*, const void*);
// allocator
void*  w_alloc___(size_t);
void   w_free__F_(void*, size_t) noexcept;
// callbacks
void   w_cbr__R(const void*);
void   w_cbw__W(void*);
bool   w_cbp__W(void*);
bool   w_cbq__R(const void*);
void   w_cbe__();           // "construct here" callback entered
bool   w_pick__();          // arbitrary choice made by user code
void   w_cbset__R(const void*);
void   w_cbsetm__W(void*);
// mutex
void   w_lock__M(void*);
void   w_unlock__M(void*) noexcept;
bool   w_trylock__M(void*);
void   w_lockS__M(void*);
void   w_unlockS__M(void*) noexcept;
bool   w_trylockS__M(void*);
// archives
bool   w_save__R_(const void*, size_t);
bool   w_load__W_(void*, size_t);
}

#ifdef WIT_TMOVE // the element types do not promise that moving never throws
#define WNX noexcept(false)
#else
#define WNX noexcept
#endif
// foreign key for heterogeneous lookup
struct Q { int q; };
struct K {
    int v;
    K(const Q& q) { w_kconv__WR(this, &q); }
    K() { w_kinit__W(this); }
    K(int, int) { w_kinit__W(this); }
    K(const K& o) { w_kcopy__WR(this, &o); }
    K(K&& o) WNX { w_kmove__WW(this, &o); }
    K& operator=(const K& o) { w_kcopyassign__WR(this, &o); return *this; }
    K& operator=(K&& o) WNX { w_kmoveassign__WW(this, &o); return *this; }
    ~K() { w_kdtor__W(this); }
};
struct V {
    int v;
    V() { w_vinit__W(this); }
    V(const V& o) { w_vcopy__WR(this, &o); }
    V(V&& o) WNX { w_vmove__WW(this, &o); }
    V& operator=(const V& o) { w_vcopyassign__WR(this, &o); return *this; }
    V& operator=(V&& o) WNX { w_vmoveassign__WW(this, &o); return *this; }
    ~V() { w_vdtor__W(this); }
};
struct VX { // moving may throw
    int v;
    VX() { w_vinit__W(this); }
    VX(const VX& o) { w_vcopy__WR(this, &o); }
    VX(VX&& o) { w_vtmove__WW(this, &o); }
    VX& operator=(const VX& o) { w_vcopyassign__WR(this, &o); return *this; }
    VX& operator=(VX&& o) { w_vtmoveassign__WW(this, &o); return *this; }
    ~VX() { w_vdtor__W(this); }
};
inline bool operator==(const K& a, const K& b) { return w_eq__RR(&a, &b); }
inline bool operator<(const K& a, const K& b) { return w_less__RR(&a, &b); }
inline bool operator==(const V& a, const V& b) { return w_veq__RR(&a, &b); }

// trivially copyable pair members for dump/load
struct TK { uint64_t v; };
inline bool operator==(const TK& a, const TK& b) { return w_eq__RR(&a, &b); }

struct H {
    size_t operator()(const K& k) const { return w_hash__R(&k); }
    size_t operator()(const TK& k) const { return w_hash__R(&k); }
};
struct E {
    bool operator()(const K& a, const K& b) const { return w_eq__RR(&a, &b); }
    bool operator()(const TK& a, const TK& b) const { return w_eq__RR(&a, &b); }
};
struct L {
    bool operator()(const K& a, const K& b) const { return w_less__RR(&a, &b); }
};

// transparent functors
struct TH {
    using is_transparent = void;
    size_t operator()(const K& k) const { return w_hash__R(&k); }
    size_t operator()(const Q& k) const { return w_hash__R(&k); }
};
struct TE {
    using is_transparent = void;
    bool operator()(const K& a, const K& b) const { return w_eq__RR(&a, &b); }
    bool operator()(const K& a, const Q& b) const { return w_eq__RR(&a, &b); }
    bool operator()(const Q& a, const K& b) const { return w_eq__RR(&a, &b); }
};
struct TL {
    using is_transparent = void;
    bool operator()(const K& a, const K& b) const { return w_less__RR(&a, &b); }
    bool operator()(const K& a, const Q& b) const { return w_less__RR(&a, &b); }
    bool operator()(const Q& a, const K& b) const { return w_less__RR(&a, &b); }
};

template<class T>
struct WA {
    using value_type = T;
    WA() = default;
    template<class U> WA(const WA<U>&) noexcept {}
    T*   allocate(size_t n) { return static_cast<T*>(w_alloc___(n * sizeof(T))); }
    void deallocate(T* p, size_t n) noexcept { w_free__F_(p, n * sizeof(T)); }
    friend bool operator==(const WA&, const WA&) { return true; }
    friend bool operator!=(const WA&, const WA&) { return false; }
};

struct WMutex {
    void lock() { w_lock__M(this); }
    void unlock() noexcept { w_unlock__M(this); }
    bool try_lock() { return w_trylock__M(this); }
    char pad[8];
};

struct SaveAr {
    bool saveBinary(const void* p, size_t n) { return w_save__R_(p, n); }
};
struct LoadAr {
    bool loadBinary(void* p, size_t n) { return w_load__W_(p, n); }
};

#define OP extern "C"
