// Built twice (PART=0 and PART=1) and linked into one library: both parts define the same variables.
#include <stdint.h>
#include <string.h>
#include <amtl/am-cxx.h>
#include <amtl/am-linking.h>

KE_LINKONCE(uint64_t c33_word);
KE_LINKONCE(uint64_t c33_table[16]);

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

extern "C" {
KE_DLL_EXPORT void CAT(c33_set, PART)(unsigned i, uint64_t v) {
    if (i == 16)
        c33_word = v;
    else
        c33_table[i] = v;
}
KE_DLL_EXPORT uint64_t CAT(c33_get, PART)(unsigned i) {
    return i == 16 ? c33_word : c33_table[i];
}
KE_DLL_PRIVATE uint64_t CAT(c33_private, PART)() {
    return c33_word;
}
KE_DLL_EXPORT uint64_t CAT(c33_through, PART)() {
    return CAT(c33_private, PART)();
}
}
