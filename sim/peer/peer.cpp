// The header is one for C++ as well, and can be included more than once.
#include "vx.h"
#include "vx.h"
extern "C" char const *cpp_check(uint64_t seed) {
    VxNest_t n = vx_make_nest(seed);
    VxNest_t m = vx_echo_nest(n);
    if (vx_digest_nest(m) != vx_read_nest(&n)) return "peer.cpp: a structure changed on its way";
    if (vx_echo_color(VX_COLOR_DARK_GREEN) != VX_COLOR_DARK_GREEN) return "peer.cpp: an enumerator changed on its way";
    VxOpaque_t *o = vx_opaque_new(seed);
    bool same = vx_opaque_get(o) == seed;
    vx_opaque_free(o);
    if (!same) return "peer.cpp: an opaque object changed on its way";
    if (vx_get_fn(true)(4) != 8) return "peer.cpp: another function came back";
    return nullptr;
}

/* X01: a caller that would notice if anything came up the stack. */
extern "C" int cpp_call_catching(uint32_t (*f)(void *), void * env, uint32_t * out) {
    try {
        *out = f(env);
        return 0;
    } catch (...) {
        return 1;
    }
}
