// Stand-in for absl/synchronization/mutex.h: absl::Mutex with opaque operations.
#pragma once
#define ABSL_SYNCHRONIZATION_MUTEX_H_
#define ABSL_EXCLUSIVE_LOCK_FUNCTION(...)
#define ABSL_UNLOCK_FUNCTION(...)
#define ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(...)
#define ABSL_SHARED_LOCK_FUNCTION(...)
#define ABSL_SHARED_TRYLOCK_FUNCTION(...)
namespace absl {
class Mutex {
public:
    void Lock() { w_lock__M(this); }
    void Unlock() { w_unlock__M(this); }
    bool TryLock() { return w_trylock__M(this); }
    void ReaderLock() { w_lockS__M(this); }
    void ReaderUnlock() { w_unlockS__M(this); }
    bool ReaderTryLock() { return w_trylockS__M(this); }
    void WriterLock() { w_lock__M(this); }
    void WriterUnlock() { w_unlock__M(this); }
    bool WriterTryLock() { return w_trylock__M(this); }
    char pad[8];
};
}
