// sched.h - deterministic schedule exploration for the concurrency harnesses.
//
// The harness is compiled with clang's ThreadSanitizer instrumentation but linked with our own
// runtime (sched_rt.cpp).  Between Begin() and End() the calling thread and every thread it (or they)
// create through pthread_create run one at a time; before each access to memory that is not the
// thread's own stack, and in each wrapped library call, the runtime asks the choice sequence whether
// another thread goes on.  0 always means "the current thread goes on", so shrinking a case removes
// preemptions.
//
// Along the way the runtime keeps vector clocks with the memory orders the code asked for and reports
// data races, accesses to freed memory, deadlocks, operations that never complete, and misuse of
// thread-specific keys.
#pragma once

#include <setjmp.h>
#include <stddef.h>
#include <stdint.h>

namespace sched {

typedef uint64_t (*DrawFn)(void* data, uint64_t n);
typedef void (*FailFn)(const char* text);
// Asked before a thread-specific key is created; true refuses it.
typedef bool (*KeyFn)(void* data);

// |reuse|: freed memory may be allocated again in the same run, so that an address can stand for one
// object after another; otherwise it is kept, so that every access to it is an error.
void Begin(DrawFn draw, void* data, FailFn fail, uint64_t switch_den, bool reuse);
// Every other thread must have finished.
void End();

// Number of this thread within the run; the one that called Begin() is 0.
int Self();
// Steps taken so far: a logical time for histories.
uint64_t Now();
// Preemptions so far.
uint64_t Switches();
// The thread that would be accused when it keeps running alone may be preempted here.
void Yield();

void SetKeyHook(KeyFn fn, void* data);
size_t LiveKeys();
// Deletes the keys that are left.
void DropKeys();

// The harness's own bookkeeping: neither a place to preempt nor part of the race detection.
void IgnoreBegin();
void IgnoreEnd();
struct Ignore {
    Ignore() {
        IgnoreBegin();
    }
    ~Ignore() {
        IgnoreEnd();
    }
};

sigjmp_buf* ArmAbort();
void DisarmAbort();

// Runs |f|; true if it aborted (through assert or abort) instead of returning.
template <typename F>
__attribute__((noinline)) bool
Aborts(F&& f) {
    sigjmp_buf* b = ArmAbort();
    if (sigsetjmp(*b, 1) == 0) {
        f();
        DisarmAbort();
        return false;
    }
    return true;
}

} // namespace sched
