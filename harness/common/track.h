// Lifetime-tracking payload and logging allocation policy shared by the container harnesses.
#pragma once

#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include <new>
#include <utility>

#include <sys/mman.h>

namespace tk {

struct Stats {
    long live = 0;
    long ctors = 0;   // every construction
    long dtors = 0;
    long copies = 0;  // copy constructions and copy assignments
    long moves = 0;
};
static Stats g;

// A value that knows whether it is alive.  Its mark depends on its address, so bitwise copies and
// uses of destroyed or never-constructed storage are caught even where ASan cannot see them.
static const uint64_t kLive = 0x5afe11fe5afe11feULL;
static const uint64_t kDead = 0xdeaddeaddeaddeadULL;
static const long kMovedFrom = -1000001;
static const long kDefault = -77;

class Val
{
  public:
    Val() {
        birth();
        v_ = kDefault;
    }
    Val(long v) {
        birth();
        v_ = v;
    }
    Val(const Val& o) {
        o.check("copied from");
        birth();
        v_ = o.v_;
        g.copies++;
    }
    Val(Val&& o) {
        o.check("moved from");
        birth();
        v_ = o.v_;
        o.v_ = kMovedFrom;
        g.moves++;
    }
    Val& operator =(const Val& o) {
        check("assigned to");
        o.check("assigned from");
        v_ = o.v_;
        g.copies++;
        return *this;
    }
    Val& operator =(Val&& o) {
        check("move-assigned to");
        o.check("move-assigned from");
        if (this != &o) {
            v_ = o.v_;
            o.v_ = kMovedFrom;
        }
        g.moves++;
        return *this;
    }
    ~Val() {
        check("destroyed");
        mark_ = kDead;
        g.live--;
        g.dtors++;
    }
    long v() const {
        check("read");
        return v_;
    }
    void set(long v) {
        check("written");
        v_ = v;
    }
    bool operator ==(const Val& o) const {
        return v() == o.v();
    }
    bool operator !=(const Val& o) const {
        return v() != o.v();
    }
    void check(const char* what) const {
        if (mark_ != (kLive ^ (uint64_t)(uintptr_t)this)) {
            vp::Fail("lifetime: a value is %s at an address where no value is alive (%s)", what,
                     mark_ == kDead ? "it was already destroyed" : "never constructed there");
        }
    }

  private:
    void birth() {
        mark_ = kLive ^ (uint64_t)(uintptr_t)this;
        g.live++;
        g.ctors++;
    }
    uint64_t mark_;
    long v_;
};

// Memory obtained through one policy identity.
struct Arena {
    static const size_t kMax = 64;
    void* ptr[kMax];
    size_t size[kMax];
    int owner[kMax];
    size_t n = 0;
    size_t live_bytes = 0;
    size_t peak_bytes = 0;
    unsigned long mallocs = 0, frees = 0, refused = 0, overflows = 0, ooms = 0;
    bool fail_all = false;
    long fail_in = -1;  // refuse the allocation after this many more
    bool use_mmap = false;
    size_t refuse_above = size_t(-1);

    void* alloc(size_t bytes, int who) {
        bool refuse = fail_all || bytes > refuse_above;
        if (fail_in >= 0) {
            if (fail_in == 0)
                refuse = true;
            fail_in--;
        }
        if (refuse) {
            refused++;
            return nullptr;
        }
        if (n == kMax)
            vp::Fail("memory: more than %zu blocks are live at once", kMax);
        void* p;
        if (use_mmap) {
            p = mmap(nullptr, bytes ? bytes : 1, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) {
                refused++;
                return nullptr;
            }
        } else {
            p = ::malloc(bytes);
            if (!p) {
                refused++;
                return nullptr;
            }
            // Storage is not zeroed: make that visible.
            memset(p, 0xA5, bytes);
        }
        ptr[n] = p;
        size[n] = bytes;
        owner[n] = who;
        n++;
        mallocs++;
        live_bytes += bytes;
        if (live_bytes > peak_bytes)
            peak_bytes = live_bytes;
        return p;
    }
    void release(void* p, int who) {
        if (!p)
            return;
        for (size_t i = 0; i < n; i++) {
            if (ptr[i] == p) {
                if (owner[i] != who) {
                    vp::Fail("policy: memory taken through policy %d is freed through policy %d",
                             owner[i], who);
                }
                live_bytes -= size[i];
                if (use_mmap)
                    munmap(p, size[i] ? size[i] : 1);
                else
                    ::free(p);
                n--;
                ptr[i] = ptr[n];
                size[i] = size[n];
                owner[i] = owner[n];
                frees++;
                return;
            }
        }
        vp::Fail("policy: freeing a block that the policy did not hand out (double or foreign free)");
    }
    size_t blocks_of(int who) const {
        size_t k = 0;
        for (size_t i = 0; i < n; i++)
            k += owner[i] == who;
        return k;
    }
    size_t bytes_of(int who) const {
        size_t k = 0;
        for (size_t i = 0; i < n; i++)
            k += owner[i] == who ? size[i] : 0;
        return k;
    }
};

static Arena* g_default_arena = nullptr;

// A stateful policy: identity |who| and counters live in the policy object itself and are copied
// with it.  A default-constructed one has identity 0.
struct Policy {
    Arena* arena;
    int who;
    unsigned long my_mallocs = 0, my_frees = 0, my_refused = 0, my_overflows = 0, my_ooms = 0;
    bool my_fail = false;

    Policy()
     : arena(g_default_arena),
       who(0)
    {}
    Policy(Arena* a, int w)
     : arena(a),
       who(w)
    {}

    void* am_malloc(size_t bytes) {
        if (my_fail) {
            my_refused++;
            arena->refused++;
            reportOutOfMemory();
            return nullptr;
        }
        void* p = arena->alloc(bytes, who);
        if (!p) {
            my_refused++;
            reportOutOfMemory();
        } else {
            my_mallocs++;
        }
        return p;
    }
    void am_free(void* p) {
        if (p)
            my_frees++;
        arena->release(p, who);
    }
    void reportOutOfMemory() {
        my_ooms++;
        arena->ooms++;
    }
    void reportAllocationOverflow() {
        my_overflows++;
        arena->overflows++;
    }
};

}  // namespace tk
