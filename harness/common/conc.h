// Shared by the concurrency harnesses.
#pragma once

#include <string>
#include <thread>
#include <vector>

#include "../../engine/sched.h"

namespace conc {

static inline uint64_t
DrawChoice(void* data, uint64_t n) {
    return static_cast<vp::Src*>(data)->draw(n);
}
static inline void
FailRun(const char* text) {
    vp::Fail("%s", text);
}

// From construction to destruction threads are scheduled by the choice sequence.  All memory the
// threads use should come from inside, all threads must be joined inside.
struct Run {
    // |c_library|: the threads read memory that the C library allocates for itself, which may be what
    // they freed before.
    explicit Run(vp::Src& s, bool c_library = false) {
        static const uint64_t dens[] = {32, 2, 3, 4, 6, 10, 16};
        uint64_t d = dens[s.draw(7)];
        bool reuse = s.coin() && !c_library;
        sched::Begin(DrawChoice, &s, FailRun, d, reuse);
    }
    ~Run() {
        sched::End();
    }
};

#define CONC_LOG(...)          \
    do {                       \
        ::sched::Ignore ig_;   \
        VP_LOG(__VA_ARGS__);   \
    } while (0)
#define CONC_CHECK(cond, ...)            \
    do {                                 \
        ::sched::IgnoreBegin();          \
        bool ok_ = (cond);               \
        if (!ok_)                        \
            ::vp::Fail(__VA_ARGS__);     \
        ::sched::IgnoreEnd();            \
    } while (0)

} // namespace conc
