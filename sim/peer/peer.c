/* The C program that `exports.rs` is linked with. It knows of it what the generated header says.
 * Everything here returns NULL, or the text of the expectation that did not hold. */
#include "vx.h"

#include <stdlib.h>
#include <string.h>
#include <stdalign.h>

#define STR2(x) #x
#define STR(x) STR2(x)
#define EXPECT(e) do { if (!(e)) return "peer.c:" STR(__LINE__) ": " #e; } while (0)

/* --- what the simulator provides --- */
static uint32_t const *words;
static uint16_t (*fp_twice)(uint8_t), (*fp_thrice)(uint8_t);
static void (*sim_yield)(void);
void c_init(uint32_t const *w, uint16_t (*tw)(uint8_t), uint16_t (*th)(uint8_t), void (*y)(void)) {
    words = w; fp_twice = tw; fp_thrice = th; sim_yield = y;
}

/* --- the same numbers as ctx::Rng and exports::fold --- */
typedef uint64_t u64;
static u64 next(u64 *s) {
    u64 z = *s += 0x9E3779B97F4A7C15u;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9u;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBu;
    return z ^ (z >> 31);
}
static u64 rng(u64 seed) { return seed ^ 0x9E3779B97F4A7C15u; }
static void fold(u64 *d, u64 w) { u64 x = (*d ^ w) * 0x100000001b3u; *d = x << 23 | x >> 41; }
#define D0 0xcbf29ce484222325u

/* --- fields: mk_KIND(T *, rng), dg_KIND(T const *, digest) --- */
#define INT(K, T) \
    static void mk_##K(T *x, u64 *s) { *x = (T)next(s); } \
    static void dg_##K(T const *x, u64 *d) { fold(d, (u64)(int64_t)*x); }
INT(u8, uint8_t) INT(u16, uint16_t) INT(u32, uint32_t) INT(u64, uint64_t) INT(usize, size_t)
INT(i8, int8_t) INT(i16, int16_t) INT(i32, int32_t) INT(i64, int64_t) INT(isize, ssize_t)
static void mk_bool(bool *x, u64 *s) { *x = next(s) & 1; }
static void dg_bool(bool const *x, u64 *d) { fold(d, *x); }
static void mk_f32(float *x, u64 *s) { *x = (float)((int32_t)next(s) >> 8); }
static void dg_f32(float const *x, u64 *d) { uint32_t w; memcpy(&w, x, 4); fold(d, w); }
static void mk_f64(double *x, u64 *s) { *x = (double)((int64_t)next(s) >> 12); }
static void dg_f64(double const *x, u64 *d) { u64 w; memcpy(&w, x, 8); fold(d, w); }

#define ENUM(K, T, ...) \
    static int64_t const all_##K[] = { __VA_ARGS__ }; \
    static void mk_##K(T *x, u64 *s) { *x = (T)all_##K[next(s) % (sizeof all_##K / 8)]; } \
    static void dg_##K(T const *x, u64 *d) { fold(d, (u64)(int64_t)*x); }
ENUM(color, VxColor_t, VX_COLOR_RED, VX_COLOR_DARK_GREEN, VX_COLOR_BLUE, VX_COLOR_LAST)
ENUM(signed, VxSigned_t, VX_SIGNED_LOW, VX_SIGNED_MINUS, VX_SIGNED_ZERO, VX_SIGNED_UP)
ENUM(wide, VxWide_t, VX_WIDE_A, VX_WIDE_B, VX_WIDE_C)
ENUM(eint, VxInt_t, VX_INT_NEG, VX_INT_POS, VX_INT_NEXT)
ENUM(plain, VxPlain_t, VX_PLAIN_ONE, VX_PLAIN_TWO, VX_PLAIN_NINE)
ENUM(bits, VxBits_t, VX_BITS_LOW, VX_BITS_SIGN, VX_BITS_HIGH, VX_BITS_AFTER)
ENUM(full, VxFull_t, VX_FULL_NIL, VX_FULL_MOST, VX_FULL_ALL)
ENUM(top, VxTop_t, VX_TOP_BOTTOM, VX_TOP_TOP)
ENUM(renum, vx_renamed_t, VX_RENAMED_FIRST_ONE, VX_RENAMED_SECOND_ONE, VX_RENAMED_THIRD)

typedef __typeof__(((VxPtrs_t *)0)->raw) raw_t;
typedef __typeof__(((VxPtrs_t *)0)->out) out_t;
typedef __typeof__(((VxPtrs_t *)0)->f) f_t;
typedef __typeof__(((VxPtrs_t *)0)->mb) mb_t;
static void mk_raw(raw_t *x, u64 *s) { *x = (raw_t)(uintptr_t)(next(s) & ~15ull); }
static void dg_raw(raw_t const *x, u64 *d) { fold(d, (u64)(uintptr_t)*x); }
static void mk_out(out_t *x, u64 *s) { *x = (out_t)(uintptr_t)(next(s) & ~15ull); }
static void dg_out(out_t const *x, u64 *d) { fold(d, (u64)(uintptr_t)*x); }
static void mk_fp(f_t *x, u64 *s) { *x = next(s) & 1 ? fp_thrice : fp_twice; }
static void dg_fp(f_t const *x, u64 *d) { fold(d, (*x)(50)); }
static void mk_mbfp(f_t *x, u64 *s) { *x = NULL; if (!(next(s) & 1)) mk_fp(x, s); }
static void dg_mbfp(f_t const *x, u64 *d) { if (*x) dg_fp(x, d); else fold(d, 0x18); }
static void mk_mb(mb_t *x, u64 *s) { u64 w = next(s); *x = w & 3 ? &words[(w >> 2) % 8] : NULL; }
static void dg_mb(mb_t const *x, u64 *d) { fold(d, *x ? **x : 0x17); }

/* A structure is a list of F(name, kind). */
#define MK(f, k) mk_##k(&x_->f, s_);
#define DG(f, k) dg_##k(&x_->f, d_);
#define LY(f, k) if (!strcmp(name, #f)) return offsetof(T_, f) << 16 | sizeof(((T_ *)0)->f);
#define STRUCT(K, T, FIELDS) \
    static void mk_##K(T *x_, u64 *s_) { FIELDS(MK) } \
    static void dg_##K(T const *x_, u64 *d_) { FIELDS(DG) } \
    size_t c_field_##K(char const *name) { typedef T T_; FIELDS(LY) return (size_t)-1; }

#define SMALL(F) F(x, i16) F(y, u8)
STRUCT(small, VxSmall_t, SMALL)
#define MIX(F) F(a, u8) F(b, u32) F(c, u16) F(d, u64) F(e, bool) F(f, f32) F(g, i8) F(h, f64) F(i, i16)
STRUCT(mix, VxMix_t, MIX)
#define FLOATS(F) F(p, f64) F(q, f32) F(r, f32)
STRUCT(floats, VxFloats_t, FLOATS)

typedef __typeof__(((VxNest_t *)0)->bytes) A_bytes;
typedef __typeof__(((VxNest_t *)0)->pair) A_pair;
typedef __typeof__(((VxNest_t *)0)->grid) A_grid;
typedef __typeof__(((A_grid *)0)->idx[0]) A_row;
#define AF(K, ITEM, N) \
    static void mk_##K(A_##K *x, u64 *s) { for (int i = 0; i < N; i++) mk_##ITEM(&x->idx[i], s); } \
    static void dg_##K(A_##K const *x, u64 *d) { for (int i = 0; i < N; i++) dg_##ITEM(&x->idx[i], d); } \
    _Static_assert(sizeof(A_##K) == N * sizeof(((A_##K *)0)->idx[0]), "array");
AF(bytes, u8, 3) AF(pair, small, 2) AF(row, u16, 2) AF(grid, row, 3)
#define NEST(F) F(tag, color) F(small, small) F(bytes, bytes) F(mix, mix) F(pair, pair) F(sign, signed) F(grid, grid) F(plain, plain)
STRUCT(nest, VxNest_t, NEST)
#define RENAMED(F) F(kind, renum) F(wide, wide) F(n, i64)
STRUCT(renamed, vx_other_name_t, RENAMED)
#define PTRS(F) F(raw, raw) F(out, out) F(f, fp) F(mb_f, mbfp) F(mb, mb) F(n, i32) F(len, usize)
STRUCT(ptrs, VxPtrs_t, PTRS)
typedef __typeof__(vx_make_gen(0)) gen_t;
#define GEN(F) F(fst, u8) F(snd, i64)
STRUCT(gen, gen_t, GEN)
typedef __typeof__(vx_make_gennest(0)) gennest_t;
#define GENNEST(F) F(fst, gen) F(snd, bool)
STRUCT(gennest, gennest_t, GENNEST)
#define RAW(F) F(type, u8) F(move, small) F(in, full) F(match, u64)
STRUCT(rawids, VxRaw_t, RAW)
typedef __typeof__(vx_make_const3(0)) const3_t;
typedef __typeof__(((const3_t *)0)->xs) A_b3;
typedef __typeof__(vx_make_const16(0)) const16_t;
typedef __typeof__(((const16_t *)0)->xs) A_b16;
AF(b3, u8, 3) AF(b16, u8, 16)
#define CONST3(F) F(xs, b3) F(y, u16)
#define CONST16(F) F(xs, b16) F(y, u16)
STRUCT(const3, const3_t, CONST3)
STRUCT(const16, const16_t, CONST16)
#define PHANTOM(F) F(before, u8) F(after, u32)
STRUCT(phantom, VxPhantom_t, PHANTOM)
typedef __typeof__(vx_make_tup(0)) tup_t;
#define TUP(F) F(_0, u8) F(_1, small) F(_2, u64)
STRUCT(tup, tup_t, TUP)

/* --- every type there and back --- */
#define TYPE(K, T, KIND) \
    static u64 dig_##K(T x) { u64 d = D0; dg_##KIND(&x, &d); return d; } \
    T c_make_##K(u64 seed) { T x; memset(&x, 0xA5, sizeof x); u64 s = rng(seed); mk_##KIND(&x, &s); return x; } \
    u64 c_digest_##K(T x) { return dig_##K(x); } \
    u64 c_read_##K(T const *x) { return dig_##K(*x); } \
    size_t c_layout_##K(void) { return sizeof(T) << 16 | alignof(T); } \
    char const *c_cycle_##K(u64 seed, u64 seed2) { \
        T t = c_make_##K(seed), u = c_make_##K(seed2), o, r; \
        u64 d = dig_##K(t), d2 = dig_##K(u); \
        EXPECT(vx_digest_##K(t) == d /* K */); \
        r = vx_echo_##K(t); \
        EXPECT(dig_##K(r) == d); \
        EXPECT(vx_read_##K(&t) == d); \
        r = vx_make_##K(seed); \
        EXPECT(dig_##K(r) == d); \
        memset(&o, 0x5A, sizeof o); \
        vx_fill_##K(&o, seed2); \
        EXPECT(dig_##K(o) == d2); \
        r = vx_swap_##K(&t, o); \
        EXPECT(dig_##K(r) == d && dig_##K(t) == d2); \
        return NULL; \
    }
TYPE(u8, uint8_t, u8) TYPE(u16, uint16_t, u16) TYPE(u32, uint32_t, u32) TYPE(u64, uint64_t, u64) TYPE(usize, size_t, usize)
TYPE(i8, int8_t, i8) TYPE(i16, int16_t, i16) TYPE(i32, int32_t, i32) TYPE(i64, int64_t, i64) TYPE(isize, ssize_t, isize)
TYPE(f32, float, f32) TYPE(f64, double, f64) TYPE(bool, bool, bool)
TYPE(mix, VxMix_t, mix) TYPE(small, VxSmall_t, small) TYPE(floats, VxFloats_t, floats)
TYPE(color, VxColor_t, color) TYPE(signed, VxSigned_t, signed) TYPE(wide, VxWide_t, wide)
TYPE(eint, VxInt_t, eint) TYPE(plain, VxPlain_t, plain) TYPE(renum, vx_renamed_t, renum)
TYPE(bits, VxBits_t, bits) TYPE(full, VxFull_t, full) TYPE(top, VxTop_t, top)
TYPE(raw, VxRaw_t, rawids) TYPE(const3, const3_t, const3) TYPE(const16, const16_t, const16)
TYPE(nest, VxNest_t, nest) TYPE(renamed, vx_other_name_t, renamed) TYPE(ptrs, VxPtrs_t, ptrs)
TYPE(gen, gen_t, gen) TYPE(gennest, gennest_t, gennest) TYPE(phantom, VxPhantom_t, phantom) TYPE(tup, tup_t, tup)
TYPE(transp, uint32_t, u32) TYPE(transps, VxSmall_t, small)

/* --- constants and enumerators --- */
static int64_t bits32(float x) { uint32_t w; memcpy(&w, &x, 4); return w; }
static int64_t bits64(double x) { int64_t w; memcpy(&w, &x, 8); return w; }
int64_t c_number(int i) {
    switch (i) {
    case 0: return VX_COLOR_RED; case 1: return VX_COLOR_DARK_GREEN; case 2: return VX_COLOR_BLUE; case 3: return VX_COLOR_LAST;
    case 4: return VX_SIGNED_LOW; case 5: return VX_SIGNED_MINUS; case 6: return VX_SIGNED_ZERO; case 7: return VX_SIGNED_UP;
    case 8: return VX_WIDE_A; case 9: return VX_WIDE_B; case 10: return VX_WIDE_C;
    case 11: return VX_INT_NEG; case 12: return VX_INT_POS; case 13: return VX_INT_NEXT;
    case 14: return VX_PLAIN_ONE; case 15: return VX_PLAIN_TWO; case 16: return VX_PLAIN_NINE;
    case 17: return VX_RENAMED_FIRST_ONE; case 18: return VX_RENAMED_SECOND_ONE; case 19: return VX_RENAMED_THIRD;
    case 20: return VX_ANSWER; case 21: return VX_MINUS; case 22: return VX_BYTE; case 23: return (int64_t)VX_BIG;
    case 24: return VX_YES; case 25: return (int64_t)(VX_RATIO * 1000); case 26: return VX_UNTYPED;
    /* of which type */
    case 27: return sizeof(VX_ANSWER); case 28: return sizeof(VX_MINUS); case 29: return sizeof(VX_BYTE);
    case 30: return sizeof(VX_BIG); case 31: return sizeof(VX_YES); case 32: return sizeof(VX_RATIO);
    case 33: return offsetof(VxAlone_t, what); case 34: return offsetof(VxAlone_t, items); case 35: return offsetof(VxAlone_t, slice);
    case 36: return sizeof(VxAlone_t); case 37: return sizeof(((VxAlone_t *)0)->items.idx) / sizeof(((VxAlone_t *)0)->items.idx[0]);
    case 38: return sizeof(((VxAlone_t *)0)->slice.ptr[0]); case 39: return strlen(VX_TEXT);
    case 40: return VX_BITS_LOW; case 41: return VX_BITS_SIGN; case 42: return VX_BITS_HIGH; case 43: return VX_BITS_AFTER;
    case 44: return VX_FULL_NIL; case 45: return VX_FULL_MOST; case 46: return VX_FULL_ALL; case 47: return VX_TOP_BOTTOM; case 48: return VX_TOP_TOP;
    case 49: return bits32(VX_HALF); case 50: return bits64(VX_TINY); case 51: return bits32(VX_HUGE); case 52: return bits64(VX_INF);
    case 53: return bits32(VX_MINUS_INF); case 54: return VX_NAN != VX_NAN; case 55: return VX_NO; case 56: return VX_RAW; case 57: return VX_LOWEST;
    case 58: return sizeof(VX_ODD_TEXT);
    case 59: return sizeof(VX_HALF); case 60: return sizeof(VX_INF); case 61: return sizeof(VX_MINUS_INF); case 62: return sizeof(VX_RAW);
    default: return -1;
    }
}
char const *c_odd_text(void) { return VX_ODD_TEXT; }
char const *c_text(void) { return VX_TEXT; }

/* --- functions --- */
char const *c_many(u64 seed) {
    u64 s = rng(seed), d = 1;
    uint8_t a; VxSmall_t b; int16_t c; VxMix_t m; float e; VxFloats_t f; u64 g; bool h; VxColor_t i; double j;
    mk_u8(&a, &s); mk_small(&b, &s); mk_i16(&c, &s); mk_mix(&m, &s); mk_f32(&e, &s);
    mk_floats(&f, &s); mk_u64(&g, &s); mk_bool(&h, &s); mk_color(&i, &s); mk_f64(&j, &s);
    dg_u8(&a, &d); dg_small(&b, &d); dg_i16(&c, &d); dg_mix(&m, &d); dg_f32(&e, &d);
    dg_floats(&f, &d); dg_u64(&g, &d); dg_bool(&h, &d); dg_color(&i, &d); dg_f64(&j, &d);
    EXPECT(vx_many(a, b, c, m, e, &f, g, h, i, j) == d);
    return NULL;
}
static uint64_t on_call(uint8_t a, int64_t b, VxSmall_t const *c) { return (u64)a * 1000003 ^ (u64)b ^ dig_small(*c); }
static long notified;
static void on_notify(void) { notified++; }
static uint64_t on_visit(VxSmall_t const *x, uint8_t n, int64_t *sum) { *sum += n; return dig_small(*x) ^ n; }
static VxSmall_t const *on_pick(VxSmall_t const *x, VxSmall_t const *y, bool which) { return which && y ? y : x; }
static bool below(uint32_t const *x) { return *x < 1000; }
static uint16_t (*my_getter(bool which))(uint8_t) { return which ? fp_thrice : fp_twice; }
char const *c_functions(u64 seed) {
    u64 s = rng(seed);
    uint32_t a = (uint32_t)next(&s), b = (uint32_t)next(&s);
    EXPECT(vx_new_name(a, b) == a - b);
    vx_nothing();
    VxRaw_t p = c_make_raw(seed), q = c_make_raw(seed + 1);
    EXPECT(vx_raw_fn(p, (uint8_t)a, &q) == (dig_raw(p) ^ (uint8_t)a ^ q.match));
    EXPECT(vx_nested_free(vx_nested_new((uint8_t)a, b % 9), (uint8_t)a) == b % 9);
    EXPECT(vx_opaque_pair(NULL) == 77 && vx_opaque_const(NULL, NULL) == 11);
    EXPECT(vx_get_fn(true)(9) == 18 && vx_get_fn(false)(9) == 27);
    EXPECT(vx_mb_fn(0) == NULL && vx_mb_fn(1) == fp_twice && vx_mb_fn(2) == fp_thrice);
    VxSmall_t c = c_make_small(next(&s));
    uint8_t x = (uint8_t)next(&s); int64_t y = (int64_t)next(&s);
    EXPECT(vx_patterns(a, c, (uint16_t)b, (u64)y, x, c_make_color(next(&s))) == (((u64)y + a) ^ (uint16_t)c.x ^ (u64)x << 32));
    EXPECT(vx_call_fn(on_call, x, y, &c) == on_call(x, y, &c));
    uint16_t (*fs[3])(uint8_t) = { fp_twice, fp_thrice, fp_twice };
    __typeof__(fs[0]) const *pfs = fs;
    EXPECT(vx_fns((slice_ref_uint16_uint8_fptr_t){ .ptr = pfs, .len = 3 }, 5) == 10015010);
    EXPECT(vx_get_getter()(true)(7) == 14);
    EXPECT(vx_use_getter(my_getter, true, 7) == 21);
    f_t g = fp_twice;
    EXPECT(vx_fn_behind(&fs[1], &g) == 12 && g == fp_thrice);
    VxSmall_t c2 = c_make_small(next(&s));
    u64 v = dig_small(c) ^ x;
    EXPECT(vx_named_fn(on_visit, c, x) == v * 3 + 5 + x + v);
    EXPECT(vx_mb_named_fn(NULL, &c, &c2, true) == -1);
    EXPECT(vx_mb_named_fn(on_pick, &c, &c2, true) == c2.x && vx_mb_named_fn(on_pick, &c, &c2, false) == c.x);
    VxHooks_t hooks; memset(&hooks, 0, sizeof hooks);
    hooks.tag = x; hooks.visit = on_visit; hooks.notify = on_notify; hooks.pick = a & 1 ? on_pick : NULL;
    long seen = notified;
    EXPECT(vx_hooks(hooks, &c) == v + 2u * x && notified == seen + 1);
    hooks = vx_echo_hooks(hooks);
    EXPECT(hooks.tag == x && hooks.visit == on_visit && hooks.notify == on_notify && hooks.pick == (a & 1 ? on_pick : NULL));
    uint32_t vs[5]; size_t vn = 0; bool on = true;
    for (int i = 0; i < 5; i++) { vs[i] = next(&s) % 1500; on = on && vs[i] < 1000; vn += on; }
    EXPECT(vx_visit(below, (slice_ref_uint32_t){ .ptr = vs, .len = 5 }) == vn);
    EXPECT(vx_async(a, c) == (a + (u64)(int64_t)c.x) * 3 + c.y);
    EXPECT(vx_async_new_name(a) == (a << 5 | a >> 27));
    return NULL;
}
char const *c_slices(u64 seed) {
    u64 s = rng(seed);
    int32_t xs[12]; size_t n = next(&s) % 12; int32_t const *best = NULL;
    for (size_t i = 0; i < n; i++) { mk_i32(&xs[i], &s); if (!best || xs[i] >= *best) best = &xs[i]; }
    int32_t const *got = vx_max((slice_ref_int32_t){ .ptr = xs, .len = n });
    EXPECT(got == best);
    VxSmall_t ys[9], zs[9]; size_t m = next(&s) % 10;
    for (size_t i = 0; i < m; i++) { mk_small(&ys[i], &s); zs[i] = ys[i]; }
    vx_reverse((slice_mut_VxSmall_t){ .ptr = ys, .len = m });
    for (size_t i = 0; i < m; i++) EXPECT(dig_small(ys[i]) == dig_small(zs[m - 1 - i]));
    size_t k = next(&s) % 5; u64 seed2 = next(&s), s2 = rng(seed2);
    slice_boxed_VxMix_t bs = vx_boxed_slice(k, seed2);
    EXPECT(bs.len == k && bs.ptr != NULL);
    for (size_t i = 0; i < k; i++) { VxMix_t w; mk_mix(&w, &s2); EXPECT(dig_mix(bs.ptr[i]) == dig_mix(w)); }
    sim_yield();
    vx_free_boxed_slice(bs);
    bs = vx_mb_boxed_slice(k, seed2);
    EXPECT((bs.ptr == NULL) == (k == 0));
    if (bs.ptr) { EXPECT(bs.len == k); vx_free_boxed_slice(bs); }
    return NULL;
}
char const *c_vec(u64 seed) {
    u64 s = rng(seed), seed2 = next(&s), s2 = rng(seed2), sum = 0;
    size_t n = next(&s) % 20, more = next(&s) % 9;
    uint16_t model[40];
    Vec_uint16_t v = vx_vec(n, seed2);
    EXPECT(v.len == n && v.cap >= n + 3);
    for (size_t i = 0; i < n; i++) { mk_u16(&model[i], &s2); EXPECT(v.ptr[i] == model[i]); }
    for (size_t i = 0; i < more; i++) {
        mk_u16(&model[n + i], &s);
        vx_push(&v, model[n + i]);
        EXPECT(v.len == n + i + 1 && v.cap >= v.len);
        sim_yield();
    }
    if (v.len) { v.ptr[0] ^= 0x55; model[0] ^= 0x55; }
    for (size_t i = 0; i < n + more; i++) { EXPECT(v.ptr[i] == model[i]); sum = sum * 31 + model[i]; }
    EXPECT(vx_free_vec(v) == sum);
    return NULL;
}
static void text(char *out, size_t max, u64 *s) {
    size_t n = next(s) % max, i;
    for (i = 0; i < n; i++) out[i] = 'a' + next(s) % 26;
    if (n > 2 && next(s) % 2) { out[0] = '\xC3'; out[1] = '\xA9'; } /* e with an acute accent */
    out[n] = 0;
}
char const *c_strings(u64 seed) {
    u64 s = rng(seed);
    char a[60], b[60], c[120];
    text(a, 59, &s); text(b, 59, &s);
    char *r = vx_concat(a, b);
    strcpy(c, a); strcat(c, b);
    EXPECT(r && !strcmp(r, c));
    sim_yield();
    EXPECT(!strcmp(r, c) && vx_free_char_p(r) == strlen(c));
    EXPECT(vx_free_char_p(NULL) == SIZE_MAX);
    slice_ref_uint8_t sa = { .ptr = (uint8_t const *)a, .len = strlen(a) }, sb = { .ptr = (uint8_t const *)b, .len = strlen(b) };
    Vec_uint8_t v = vx_upper(sa);
    EXPECT(v.len == sa.len && v.cap >= v.len);
    for (size_t i = 0; i < v.len; i++) EXPECT((a[i] & 0x80) || v.ptr[i] == (uint8_t)(a[i] - 32));
    vx_append(&v, sb);
    EXPECT(v.len == sa.len + sb.len && !memcmp(v.ptr + sa.len, b, sb.len));
    EXPECT(vx_free_string(v) == sa.len + sb.len);
    slice_boxed_uint8_t bs = vx_boxed_str(sb);
    EXPECT(bs.len == sb.len && !memcmp(bs.ptr, b, sb.len));
    EXPECT(vx_free_str(bs) == sb.len);
    return NULL;
}
char const *c_objects(u64 seed) {
    u64 s = rng(seed), n = next(&s), m = next(&s);
    VxOpaque_t *o = vx_opaque_new(n);
    EXPECT(o && vx_opaque_get(o) == n && vx_opaque_get(NULL) == UINT64_MAX);
    EXPECT(vx_opaque_add(o, m) == n + m);
    sim_yield();
    EXPECT(vx_opaque_get(o) == n + m);
    vx_opaque_free(o);
    vx_opaque_free(NULL);
    vx_opaque_generic_t *g = vx_opaque_generic_new(n);
    __typeof__(vx_std_new(0)) t = vx_std_new(m % 100);
    VxMix_t *b = vx_box_new(m);
    EXPECT(dig_mix(*b) == dig_mix(c_make_mix(m)));
    *b = c_make_mix(n);
    EXPECT(vx_opaque_generic_free(g) == n);
    EXPECT(vx_std_free(t) == m % 100);
    EXPECT(vx_box_free(b) == dig_mix(c_make_mix(n)));
    return NULL;
}
/* shared by all simulated threads */
static VxOpaque_t *shared;
static u64 shared_sum;
static ArcDynFn1_uint64_uint64_t shared_fn;
char const *c_setup(u64 n) {
    shared = vx_opaque_new(n); shared_sum = n;
    shared_fn = vx_make_arc(n);
    return NULL;
}
char const *c_shared(u64 seed) {
    u64 s = rng(seed), m = next(&s);
    /* exclusive access, so no yield between the two lines */
    u64 n = vx_opaque_get(shared);
    EXPECT(n == shared_sum);
    ArcDynFn1_uint64_uint64_t f = shared_fn;
    f.retain(f.env_ptr);
    sim_yield();
    u64 r = f.call(f.env_ptr, m);
    if (next(&s) & 1) EXPECT(vx_call_arc(f, m) == r); /* takes the handle */
    else { sim_yield(); f.release(f.env_ptr); }
    EXPECT(shared_fn.call(shared_fn.env_ptr, m) == r);
    return NULL;
}
char const *c_teardown(void) {
    vx_opaque_free(shared);
    shared_fn.release(shared_fn.env_ptr);
    return NULL;
}
/* closures that C makes */
typedef struct { u64 magic, tag; long refs; u64 calls; } env_t;
static long envs;
long c_envs(void) { return envs; }
static char const *broken;
char const *c_broken(void) { char const *b = broken; broken = NULL; return b; }
#define SEEN(e) do { if (!(e)) broken = "peer.c:" STR(__LINE__) ": " #e; } while (0)
static env_t *env(u64 tag) { env_t *e = malloc(sizeof *e); *e = (env_t){ 0xE417, tag, 1, 0 }; envs++; return e; }
static void env_retain(void *p) { env_t *e = p; SEEN(e->magic == 0xE417 && e->refs > 0); e->refs++; sim_yield(); }
static void env_free(void *p) {
    env_t *e = p;
    SEEN(e->magic == 0xE417 && e->refs > 0);
    if (--e->refs == 0) { e->magic = 0; envs--; free(e); }
    sim_yield();
}
static uint64_t call1(void *p, uint64_t x) { env_t *e = p; SEEN(e->magic == 0xE417); e->calls++; return e->tag * 7 + x; }
static uint64_t call1w(void *p, uint32_t x) { env_t *e = p; SEEN(e->magic == 0xE417); e->calls++; return e->tag * 5 + x; }
static uint64_t call2(void *p, uint8_t a, int64_t b) { env_t *e = p; SEEN(e->magic == 0xE417); e->calls++; return (e->tag ^ a) * 3 + (u64)b; }
char const *c_closures(u64 seed) {
    u64 s = rng(seed), tag = next(&s), x = next(&s);
    long before = envs; (void)before;
    env_t *e = env(tag);
    EXPECT(vx_call_box((BoxDynFnMut1_uint64_uint32_t){ .env_ptr = e, .call = call1w, .free = env_free }, (uint32_t)x) == tag * 5 + (uint32_t)x);
    e = env(tag);
    ArcDynFn1_uint64_uint64_t f = { .env_ptr = e, .call = call1, .release = env_free, .retain = env_retain };
    env_retain(e);
    EXPECT(vx_call_arc(f, x) == tag * 7 + x);
    EXPECT(e->magic == 0xE417 && e->refs == 1 && e->calls == 1);
    env_free(e);
    env_t local = { 0xE417, tag, 1, 0 };
    uint8_t n = next(&s) % 6; u64 want = 7;
    for (uint8_t i = 0; i < n; i++) want = (tag ^ i) * 3 + want;
    EXPECT(vx_call_ref((RefDynFnMut2_uint64_uint8_int64_t){ .env_ptr = &local, .call = call2 }, n) == want);
    EXPECT(local.calls == n && local.refs == 1);
    ArcDynFn1_uint64_uint64_t r = vx_make_arc(tag);
    r.retain(r.env_ptr);
    EXPECT(r.call(r.env_ptr, x) == tag * 31 + x);
    r.release(r.env_ptr);
    sim_yield();
    EXPECT(r.call(r.env_ptr, x) == tag * 31 + x);
    r.release(r.env_ptr);
    return NULL;
}
char const *c_options(u64 seed) {
    u64 s = rng(seed); int64_t x = (int64_t)next(&s);
    __typeof__(vx_tagged(0)) t = vx_tagged(x);
    EXPECT(t._0 == (x >= 0) && (x < 0 || t._1 == x / 2));
    Tuple2_bool_VxSmall_t u; memset(&u, 0, sizeof u);
    EXPECT(vx_untag(u) == 1);
    u._0 = true; u._1 = c_make_small(next(&s));
    EXPECT(vx_untag(u) == dig_small(u._1));
    size_t n = next(&s) % 70; u64 seed2 = next(&s), s2 = rng(seed2), sum = n;
    Bytes_t b = vx_bytes(seed2, n);
    for (size_t i = 0; i < n; i++) { uint8_t w; mk_u8(&w, &s2); sum = sum * 131 + w; }
    sim_yield();
    EXPECT(vx_bytes_sum(b) == sum);
    return NULL;
}
