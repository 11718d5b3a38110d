/* Wrappers and a script interpreter over a parallel permutation service: -DPL=prefix -DHDR="..." -DN=instances -DLS=lane bytes */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "align.h"
#ifdef XOODOO
#include "Xoodoo.h"
#endif
#include HDR
#define C2(a, b) a##b
#define C1(a, b) C2(a, b)
#define F(x) C1(PL, x)
#define ST C1(PL, _states)
size_t w_size(void) { return sizeof(ST); }
void w_init(ST *s) { F(_StaticInitialize)(); F(_InitializeAll)(s); }
void w_add(ST *s, unsigned int i, const unsigned char *d, unsigned int o, unsigned int n) { F(_AddBytes)(s, i, d, o, n); }
void w_addbyte(ST *s, unsigned int i, const unsigned char *d, unsigned int o) { F(_AddByte)(s, i, *d, o); }
void w_overwrite(ST *s, unsigned int i, const unsigned char *d, unsigned int o, unsigned int n) { F(_OverwriteBytes)(s, i, d, o, n); }
void w_zero(ST *s, unsigned int i, unsigned int n) { F(_OverwriteWithZeroes)(s, i, n); }
void w_extract(const ST *s, unsigned int i, unsigned char *d, unsigned int o, unsigned int n) { F(_ExtractBytes)(s, i, d, o, n); }
void w_extractadd(const ST *s, unsigned int i, const unsigned char *p, unsigned char *d, unsigned int o, unsigned int n) { F(_ExtractAndAddBytes)(s, i, p, d, o, n); }
void w_addlanes(ST *s, const unsigned char *d, unsigned int c, unsigned int o) { F(_AddLanesAll)(s, d, c, o); }
void w_overwritelanes(ST *s, const unsigned char *d, unsigned int c, unsigned int o) { F(_OverwriteLanesAll)(s, d, c, o); }
void w_extractlanes(const ST *s, unsigned char *d, unsigned int c, unsigned int o) { F(_ExtractLanesAll)(s, d, c, o); }
void w_extractaddlanes(const ST *s, const unsigned char *p, unsigned char *d, unsigned int c, unsigned int o) { F(_ExtractAndAddLanesAll)(s, p, d, c, o); }

static unsigned char *dup(const unsigned char *p, size_t n) { unsigned char *q = malloc(n ? n : 1); memcpy(q, p, n); return q; }

/* script: records of four 32-bit words {op, a, b, c}: a is the instance (or first parameter), b offset, c length. */
void h_script(const uint32_t *sc, unsigned int count, const unsigned char *in, unsigned char *out)
{
    ST *s = aligned_alloc(64, (sizeof(ST) + 63) / 64 * 64);
    unsigned int i;
    F(_StaticInitialize)();
    for (i = 0; i < count; i++, sc += 4) {
        unsigned int a = sc[1], b = sc[2], c = sc[3], k;
        unsigned int n = c ? ((N - 1) * b + c) * LS : 0; /* size of an all-lanes buffer of c lanes at lane offset b */
        unsigned char *p, *q;
        switch (sc[0]) {
        case 21: in += a; break;
        case 0: F(_InitializeAll)(s); break;
        case 1: p = dup(in, c); in += c; F(_AddBytes)(s, a, p, b, c); free(p); break;
        case 2: p = dup(in, c); in += c; F(_OverwriteBytes)(s, a, p, b, c); free(p); break;
        case 3: F(_OverwriteWithZeroes)(s, a, c); break;
        case 4: { unsigned char x = *in++; F(_AddByte)(s, a, x, b); } break;
        case 5: p = malloc(c ? c : 1); F(_ExtractBytes)(s, a, p, b, c); memcpy(out, p, c); out += c; free(p); break;
        case 6: p = dup(in, c); in += c; q = malloc(c ? c : 1); F(_ExtractAndAddBytes)(s, a, p, q, b, c); memcpy(out, q, c); out += c; free(p); free(q); break;
        case 7: p = dup(in, c); in += c; F(_ExtractAndAddBytes)(s, a, p, p, b, c); memcpy(out, p, c); out += c; free(p); break;
        case 8: F(_PermuteAll_12rounds)(s); break;
        case 9: F(_PermuteAll_6rounds)(s); break;
#ifndef XOODOO
        case 10: F(_PermuteAll_24rounds)(s); break;
        case 11: F(_PermuteAll_4rounds)(s); break;
#endif
        case 12: p = dup(in, n); in += n; F(_AddLanesAll)(s, p, c, b); free(p); break;
        case 13: p = dup(in, n); in += n; F(_OverwriteLanesAll)(s, p, c, b); free(p); break;
        case 14: p = dup(in, n); in += n; F(_ExtractLanesAll)(s, p, c, b); memcpy(out, p, n); out += n; free(p); break;
        case 15: p = dup(in, n); in += n; q = dup(in, n); in += n; F(_ExtractAndAddLanesAll)(s, p, q, c, b); memcpy(out, q, n); out += n; free(p); free(q); break;
        case 16: p = dup(in, n); in += n; F(_ExtractAndAddLanesAll)(s, p, p, c, b); memcpy(out, p, n); out += n; free(p); break;
#ifndef XOODOO
        /* a: lane count, b: parallel offset, c: data length; the next record gives the serial offset */
#define LOOP(f) { size_t r; unsigned int so = sc[5]; i++; sc += 4; p = dup(in, c); in += c; r = f(s, a, b, so, p, c); free(p); memcpy(out, &r, 8); out += 8; } break;
#ifdef FL24
        case 17: LOOP(FL24)
#endif
#ifdef FL12
        case 18: LOOP(FL12)
#endif
#endif
        case 19: for (k = 0; k < N; k++) { F(_ExtractBytes)(s, k, out, 0, b); out += b; } break;
        case 20: for (k = 0; k < N; k++) { F(_AddBytes)(s, k, in, 0, b); in += b; } break;
        }
    }
    free(s);
}
#ifdef XCOMP
void h_xcompress(unsigned char *k, unsigned char *x, const unsigned char *in, unsigned int n, unsigned char *ret)
{ size_t r = XCOMP(k, x, in, n); memcpy(ret, &r, 8); }
void h_xexpand(unsigned char *y, const unsigned char *k, unsigned char *out, unsigned int n, unsigned char *ret)
{ size_t r = XEXP(y, k, out, n); memcpy(ret, &r, 8); }
#endif
#ifdef KCOMP
void h_kcompress(unsigned char *x, unsigned char *k, const unsigned char *in, unsigned int n, unsigned char *ret)
{ size_t r = KCOMP((uint64_t *)x, (uint64_t *)k, in, n); memcpy(ret, &r, 8); }
void h_kexpand(unsigned char *y, const unsigned char *k, unsigned char *out, unsigned int n, unsigned char *ret)
{ size_t r = KEXP((uint64_t *)y, (const uint64_t *)k, out, n); memcpy(ret, &r, 8); }
#endif
#ifdef LEAVES
void h_leaves128(const unsigned char *in, unsigned char *out) { KeccakP1600times8_KT128ProcessLeaves(in, out); }
void h_leaves256(const unsigned char *in, unsigned char *out) { KeccakP1600times8_KT256ProcessLeaves(in, out); }
#endif
