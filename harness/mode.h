/* Script interpreter support. Records are eight 32-bit words {op, slot, a, b, c, d, e, f}.
   Every input is copied to an object of exactly the stated size; outputs are produced in exact-size objects and
   appended to the output zero-padded to a multiple of eight bytes. */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "config.h"
#include "align.h"
static const unsigned char *g_in;
static unsigned char *g_out, *g_out0;
#define SLOTS 4
#define PADDED(n) (((size_t)(n) + 7) & ~(size_t)7)
#define BYTES(bits) (((size_t)(bits) + 7) / 8)
/* an input of n bytes */
static unsigned char *in_(size_t n)
{ unsigned char *p = malloc(n); memcpy(p, g_in, n); g_in += PADDED(n); return p; }
/* an input of n bytes that is what was output at offset off-1 when off != 0 */
static unsigned char *inf_(size_t n, uint32_t off)
{ unsigned char *p; if (!off) return in_(n); p = malloc(n); memcpy(p, g_out0 + off - 1, n); return p; }
static unsigned char *new_(size_t n) { return malloc(n); }
static void put_(const unsigned char *p, size_t n)
{ memcpy(g_out, p, n); memset(g_out + n, 0, PADDED(n) - n); g_out += PADDED(n); }
static void ret_(long v) { uint64_t x = (uint64_t)v; memcpy(g_out, &x, 8); g_out += 8; }
static void *obj_(size_t n) { return aligned_alloc(64, (n + 63) / 64 * 64); }
#define OBJ(type) (free(o[s]), o[s] = obj_(sizeof(type)))
#define SCRIPT(name) \
static void name##_op(void **o, unsigned int op, unsigned int s, const uint32_t *a); \
void name(const uint32_t *sc, unsigned int count, const unsigned char *in, unsigned char *out) \
{ \
    void *o[SLOTS] = { 0, 0, 0, 0 }; \
    unsigned int i; \
    g_in = in; g_out = g_out0 = out; \
    for (i = 0; i < count; i++, sc += 8) \
        if (sc[0] == 99) g_in = in + sc[2]; else name##_op(o, sc[0], sc[1], sc + 2); \
    for (i = 0; i < SLOTS; i++) free(o[i]); \
} \
static void name##_op(void **o, unsigned int op, unsigned int s, const uint32_t *a)
