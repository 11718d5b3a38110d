/* Wrappers and a script interpreter over a single-permutation service (K1600: KeccakP1600, otherwise Xoodoo). */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "align.h"
#ifdef K1600
#include "KeccakP-1600-SnP.h"
#define F(x) KeccakP1600_##x
#define ST KeccakP1600_state
#else
#include "Xoodoo.h"
#include "Xoodoo-SnP.h"
#define F(x) Xoodoo_##x
#define ST Xoodoo_state
#endif
size_t w_size(void) { return sizeof(ST); }
void w_init(ST *s) { F(StaticInitialize)(); F(Initialize)(s); }
void w_add(ST *s, const unsigned char *d, unsigned int o, unsigned int n) { F(AddBytes)(s, d, o, n); }
void w_addbyte(ST *s, const unsigned char *d, unsigned int o) { F(AddByte)(s, *d, o); }
void w_overwrite(ST *s, const unsigned char *d, unsigned int o, unsigned int n) { F(OverwriteBytes)(s, d, o, n); }
void w_zero(ST *s, unsigned int n) { F(OverwriteWithZeroes)(s, n); }
void w_extract(const ST *s, unsigned char *d, unsigned int o, unsigned int n) { F(ExtractBytes)(s, d, o, n); }
void w_extractadd(const ST *s, const unsigned char *i, unsigned char *d, unsigned int o, unsigned int n) { F(ExtractAndAddBytes)(s, i, d, o, n); }

static unsigned char *dup(const unsigned char *p, size_t n) { unsigned char *q = malloc(n ? n : 1); memcpy(q, p, n); return q; }

/* script: records of four 32-bit words {op, a, b, c}; input consumed from in, output appended to out. */
void h_script(const uint32_t *sc, unsigned int count, const unsigned char *in, unsigned char *out)
{
    ST *s = aligned_alloc(64, (sizeof(ST) + 63) / 64 * 64);
    unsigned int i;
    F(StaticInitialize)();
    for (i = 0; i < count; i++, sc += 4) {
        unsigned int a = sc[1], b = sc[2];
        unsigned char *p, *q;
        switch (sc[0]) {
        case 21: in += a; break;
        case 0: F(Initialize)(s); break;
        case 1: p = dup(in, b); in += b; F(AddBytes)(s, p, a, b); free(p); break;
        case 2: p = dup(in, b); in += b; F(OverwriteBytes)(s, p, a, b); free(p); break;
        case 3: F(OverwriteWithZeroes)(s, a); break;
        case 4: { unsigned char x = *in++; F(AddByte)(s, x, a); } break;
        case 5: p = malloc(b ? b : 1); F(ExtractBytes)(s, p, a, b); memcpy(out, p, b); out += b; free(p); break;
        case 6: p = dup(in, b); in += b; q = malloc(b ? b : 1); F(ExtractAndAddBytes)(s, p, q, a, b); memcpy(out, q, b); out += b; free(p); free(q); break;
        case 7: /* in place */
            p = dup(in, b); in += b; F(ExtractAndAddBytes)(s, p, p, a, b); memcpy(out, p, b); out += b; free(p); break;
        case 8: F(Permute_12rounds)(s); break;
#ifdef K1600
        case 9: F(Permute_24rounds)(s); break;
        case 10: F(Permute_Nrounds)(s, a); break;
#ifdef KeccakF1600_FastLoop_supported
        case 11: { size_t r; p = dup(in, b); in += b; r = KeccakF1600_FastLoop_Absorb(s, a, p, b); free(p); memcpy(out, &r, 8); out += 8; } break;
#endif
#ifdef KeccakP1600_12rounds_FastLoop_supported
        case 12: { size_t r; p = dup(in, b); in += b; r = KeccakP1600_12rounds_FastLoop_Absorb(s, a, p, b); free(p); memcpy(out, &r, 8); out += 8; } break;
#endif
#else
        case 9: F(Permute_6rounds)(s); break;
#ifdef Xoodoo_HasNround
        case 10: F(Permute_Nrounds)(s, a); break;
#endif
#ifdef CyclistFullBlocks_supported
        case 13: { size_t r; p = dup(in, b); in += b; r = a ? Xoodyak_AbsorbKeyedFullBlocks(s, p, b) : Xoodyak_AbsorbHashFullBlocks(s, p, b); free(p); memcpy(out, &r, 8); out += 8; } break;
        case 14: { size_t r, w = a ? 24 : 16; p = malloc(b / w * w); r = a ? Xoodyak_SqueezeKeyedFullBlocks(s, p, b) : Xoodyak_SqueezeHashFullBlocks(s, p, b); memcpy(out, p, b / w * w); out += b / w * w; free(p); memcpy(out, &r, 8); out += 8; } break;
        case 15: { size_t r, w = b / 24 * 24; p = dup(in, b); in += b; q = malloc(w); r = a ? Xoodyak_DecryptFullBlocks(s, p, q, b) : Xoodyak_EncryptFullBlocks(s, p, q, b); memcpy(out, q, w); out += w; free(p); free(q); memcpy(out, &r, 8); out += 8; } break;
        case 16: { size_t r, w = b / 24 * 24; p = dup(in, b); in += b; r = a ? Xoodyak_DecryptFullBlocks(s, p, p, b) : Xoodyak_EncryptFullBlocks(s, p, p, b); memcpy(out, p, w); out += w; free(p); memcpy(out, &r, 8); out += 8; } break;
#endif
#endif
        }
    }
    free(s);
}

#if !defined(K1600) && defined(Xoodoo_FastXoofff_supported)
void h_xcompress(unsigned char *k, unsigned char *x, const unsigned char *in, unsigned int n, unsigned char *ret)
{ size_t r = Xoofff_CompressFastLoop(k, x, in, n); memcpy(ret, &r, 8); }
void h_xexpand(unsigned char *y, const unsigned char *k, unsigned char *out, unsigned int n, unsigned char *ret)
{ size_t r = Xoofff_ExpandFastLoop(y, k, out, n); memcpy(ret, &r, 8); }
void h_addis(unsigned char *o, const unsigned char *i, unsigned int bits) { Xoofff_AddIs(o, i, bits); }
#endif
