#include "engine.h"
#include "strs.h"
#include "strlib.h"
const char vp_property[] = "C21";
static unsigned char ks[20 << 20];
static void stream(const unsigned char *key, size_t kl, size_t n) { unsigned char s[256]; int i, j = 0; for(i = 0; i < 256; i++) s[i] = i; for(i = 0; i < 256; i++) { j = (j + s[i] + key[i % kl]) & 255; unsigned char t = s[i]; s[i] = s[j]; s[j] = t; } i = j = 0; for(size_t k = 0; k < n; k++) { i = (i + 1) & 255; j = (j + s[i]) & 255; unsigned char t = s[i]; s[i] = s[j]; s[j] = t; ks[k] = s[(s[i] + s[j]) & 255]; } }
static void go(const unsigned char *key0, size_t kl, size_t n) {
	size_t k = vp_buf_mark(); unsigned char *key = vp_copy(key0, kl), *src = vp_buf(n), *dst = vp_buf(n); stream(key0, kl, n); for(size_t i = 0; i < n; i++) src[i] = i * 31 + (i >> 8); memset(dst, 0, n);
	rc4(dst, src, n, key, kl); for(size_t i = 0; i < n; i++) VP_CHECK(dst[i] == (unsigned char)((i * 31 + (i >> 8)) ^ ks[i]), "key %s length %zu: byte %zu of %zu wrong", vp_show(key, kl > 40 ? 40 : kl), kl, i, n);
	for(size_t i = 0; i < n; i++) VP_CHECK(src[i] == (unsigned char)(i * 31 + (i >> 8)), "the message was changed"); VP_CHECK(!memcmp(key, key0, kl), "the key was changed");
	rc4(dst, dst, n, key, kl); VP_CHECK(!n || !memcmp(dst, src, n), "applying it twice (in place) does not restore the message: key length %zu, message length %zu", kl, n); vp_trans(2); vp_states_add(1); vp_buf_release(k);
}
static long a_units(void) { return 256; }
static void a_run(long u) { unsigned char k[3]; k[0] = u; go(k, 1, 300); for(int i = 0; i < 256; i++) { k[1] = i; go(k, 2, 40); if(vp_tier) for(int j = 0; j < 256; j += 3) { k[2] = j; go(k, 3, 20); } } vp_trace("keys starting with %ld", u); }
static long b_units(void) { return 256; }
static void b_run(long u) { unsigned char k[256]; for(int p = 0; p < 6; p++) { for(int i = 0; i < 256; i++) k[i] = p == 0 ? 0 : p == 1 ? 255 : p == 2 ? i : p == 3 ? 255 - i : p == 4 ? i * 37 + u : i == u ? 1 : 0; go(k, u + 1, 600); if(vp_tier) go(k, u + 1, 5000); } vp_trace("key length %ld", u + 1); }
static long c_units(void) { return VP_T(1100, 5000); }
static void c_run(long u) { unsigned char k[] = "Secret\0Key"; go(k, 10, u); go(k, 5, u); vp_trace("message length %ld", u); }
static long d_units(void) { return 1; }
static void d_run(long u) { static const unsigned char e1[] = { 0xBB, 0xF3, 0x16, 0xE8, 0xD9, 0x40, 0xAF, 0x0A, 0xD3 }, e2[] = { 0x10, 0x21, 0xBF, 0x04, 0x20 }; unsigned char d[9]; stream((void*)"Key", 3, 9); for(int i = 0; i < 9; i++) if((ks[i] ^ "Plaintext"[i]) != e1[i]) vp_fail("the reference stream is wrong"); stream((void*)"Wiki", 4, 5); for(int i = 0; i < 5; i++) if((ks[i] ^ "pedia"[i]) != e2[i]) vp_fail("the reference stream is wrong"); rc4(d, (void*)"Plaintext", 9, (void*)"Key", 3); VP_CHECK(!memcmp(d, e1, 9), "published vector"); go((void*)"0123456789", 10, 70000); vp_trace("published vectors, 70000 bytes"); }
#define WHI VP_T(20, 24)
static long w_units(void) { return sizes_count(7, WHI); }

static void w_run(long u) { size_t n = sizes_get(7, WHI, u); static unsigned char k[20 << 20]; for(size_t i = 0; i < n; i++) k[i] = i * 11 + (i >> 8); go((void*)"Secret", 6, n); go(k, 256, n); go(k, n, 1000); go((void*)"x", 1, n); vp_trace("%zu bytes", n); }
const vp_scenario vp_scenarios[] = {
	{ "keys", a_units, a_run, "all keys of 1 and 2 bytes (thorough: 1/3 of the 3-byte keys)" },
	{ "keylengths", b_units, b_run, "key lengths 1..256 x 6 patterns" },
	{ "lengths", c_units, c_run, "message lengths 0..1099 (4999)" },
	{ "vectors", d_units, d_run, "published vectors (also for the reference), 70000 bytes" },
	{ "wide", w_units, w_run, "message and key lengths around all powers of two and ten from 127 to 2^20 + 2 (2^24 + 2)" },
	{ 0 }
};
