// Payloads that nothing counts: types an implementation might treat differently from tk::Val.
#pragma once

#include <string.h>

#include <string>
#include <type_traits>

namespace pl {

// Trivially copyable, one word or less.
struct Small {
    int x;
    Small(long v)
     : x(int(v))
    {}
    Small(long v, int extra)
     : x(int(v + extra))
    {}
    long v() const {
        return x;
    }
};

// Trivially copyable, larger than anything kept in registers.
struct Big {
    long x;
    unsigned char pad[301];
    Big(long v, int extra = 0)
     : x(v + extra)
    {
        memset(pad, int(x & 0xff), sizeof(pad));
    }
    long v() const {
        for (unsigned char c : pad)
            VP_CHECK(c == (x & 0xff), "a large element is damaged");
        return x;
    }
};

// Owns memory for some values and keeps others inside.
struct Text {
    std::string s;
    Text(long v, int extra = 0)
     : s(std::to_string(v + extra))
    {
        if (v & 1)
            s.insert(0, 40, '0');
    }
    long v() const {
        VP_CHECK(!s.empty(), "an element lost its text");
        return strtol(s.c_str(), nullptr, 10);
    }
};

template <typename T>
static constexpr bool kUncounted =
    std::is_same<T, Small>::value || std::is_same<T, Big>::value || std::is_same<T, Text>::value;

static_assert(std::is_trivially_copyable<Small>::value && std::is_trivially_copyable<Big>::value, "");

} // namespace pl
