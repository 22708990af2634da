// Sizes around those at which a narrow counter or a fixed buffer gives up.
#pragma once

static inline size_t
LargeSize(vp::Src& s, size_t max) {
    static const size_t around[] = {127, 255, 511, 1023, 4095, 16383, 32767, 65535, 131071, 262143, 1048575};
    size_t k = sizeof(around) / sizeof(*around);
    while (k > 1 && around[k - 1] > max)
        k--;
    return around[s.draw(k)] - 1 + s.draw(4);
}
