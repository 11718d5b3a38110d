/* Sponge, FIPS 202, TurboSHAKE and SP 800-185 functions driven by a script. */
#include "mode.h"
#include "KeccakSponge.h"
#include "KeccakHash.h"
#include "SimpleFIPS202.h"
#include "TurboSHAKE.h"
#include "SP800-185.h"

typedef KeccakWidth1600_SpongeInstance SI;
#define S ((SI *)o[s])
#define H ((Keccak_HashInstance *)o[s])
#define T ((TurboSHAKE_Instance *)o[s])
#define C ((cSHAKE_Instance *)o[s])
#define K ((KMAC_Instance *)o[s])
#define P ((ParallelHash_Instance *)o[s])
#define U ((TupleHash_Instance *)o[s])

static int raw;
/* a customization string of the given number of bits; unless raw, bits of the last byte beyond its end are zero */
static unsigned char *cust_(size_t bits)
{
    unsigned char *p = in_(BYTES(bits));
    if (!raw && bits % 8) p[bits / 8] &= (1 << bits % 8) - 1;
    return p;
}

SCRIPT(h_hash)
{
    unsigned char *p = 0, *q = 0, *r = 0, *t = 0;
    size_t n;
    raw = op >= 200;
    if (raw) op -= 200;
    switch (op) {
    /* sponge */
    case 1: OBJ(SI); ret_(KeccakWidth1600_SpongeInitialize(S, a[0], a[1])); break;
    case 2: p = in_(a[0]); ret_(KeccakWidth1600_SpongeAbsorb(S, p, a[0])); break;
    case 3: ret_(KeccakWidth1600_SpongeAbsorbLastFewBits(S, (unsigned char)a[0])); break;
    case 4: p = in_(1); ret_(KeccakWidth1600_SpongeAbsorbLastFewBits(S, *p)); break;
    case 5: q = new_(a[0]); ret_(KeccakWidth1600_SpongeSqueeze(S, q, a[0])); put_(q, a[0]); break;
    case 6: p = in_(a[2]); q = new_(a[4]); { int e = KeccakWidth1600_Sponge(a[0], a[1], p, a[2], (unsigned char)a[3], q, a[4]); ret_(e); if (!e) put_(q, a[4]); } break;
    case 7: p = in_(a[2]); q = new_(a[4]); t = in_(1); { int e = KeccakWidth1600_Sponge(a[0], a[1], p, a[2], *t, q, a[4]); ret_(e); put_(q, a[4]); } break;
    /* FIPS 202 */
    case 10: OBJ(Keccak_HashInstance);
        switch (a[0]) {
        case 0: ret_(Keccak_HashInitialize(H, a[1], a[2], a[3], (unsigned char)a[4])); break;
        case 128: ret_(Keccak_HashInitialize_SHAKE128(H)); break;
        case 257: ret_(Keccak_HashInitialize_SHAKE256(H)); break;
        case 224: ret_(Keccak_HashInitialize_SHA3_224(H)); break;
        case 256: ret_(Keccak_HashInitialize_SHA3_256(H)); break;
        case 384: ret_(Keccak_HashInitialize_SHA3_384(H)); break;
        case 512: ret_(Keccak_HashInitialize_SHA3_512(H)); break;
        } break;
    case 11: p = in_(BYTES(a[0])); ret_(Keccak_HashUpdate(H, p, a[0])); break;
    case 12: q = new_(a[0]); ret_(Keccak_HashFinal(H, q)); put_(q, a[0]); break;
    case 13: n = BYTES(a[0]); q = new_(n); { int e = Keccak_HashSqueeze(H, q, a[0]); ret_(e); if (!e) put_(q, n); } break;
    case 14: p = in_(a[1]); q = new_(a[2]);
        switch (a[0]) {
        case 128: ret_(SHAKE128(q, a[2], p, a[1])); break;
        case 257: ret_(SHAKE256(q, a[2], p, a[1])); break;
        case 224: ret_(SHA3_224(q, p, a[1])); break;
        case 256: ret_(SHA3_256(q, p, a[1])); break;
        case 384: ret_(SHA3_384(q, p, a[1])); break;
        case 512: ret_(SHA3_512(q, p, a[1])); break;
        }
        put_(q, a[2]); break;
    /* TurboSHAKE */
    case 20: OBJ(TurboSHAKE_Instance); ret_(a[0] == 128 ? TurboSHAKE128_Initialize(T) : a[0] == 256 ? TurboSHAKE256_Initialize(T) : TurboSHAKE_Initialize(T, a[1])); break;
    case 21: p = in_(a[0]); ret_(TurboSHAKE_Absorb(T, p, a[0])); break;
    case 22: ret_(TurboSHAKE_AbsorbDomainSeparationByte(T, (unsigned char)a[0])); break;
    case 23: q = new_(a[0]); ret_(TurboSHAKE_Squeeze(T, q, a[0])); put_(q, a[0]); break;
    case 24: p = in_(a[1]); q = new_(a[3]); { int e = TurboSHAKE(a[0], p, a[1], (unsigned char)a[2], q, a[3]); ret_(e); if (!e) put_(q, a[3]); } break;
    /* SP 800-185; a[0] = security level; a partial output byte is followed by nothing */
#define SEC(x, args) (a[0] == 128 ? x##128 args : x##256 args)
#define SEC2(x, y, args) (a[0] == 128 ? x##128_##y args : x##256_##y args)
    case 30: OBJ(cSHAKE_Instance); p = in_(BYTES(a[2])); q = cust_(a[3]); ret_(SEC2(cSHAKE, Initialize, (C, a[1], p, a[2], q, a[3]))); break;
    case 31: p = in_(BYTES(a[1])); ret_(SEC2(cSHAKE, Update, (C, p, a[1]))); break;
    case 32: q = new_(BYTES(a[1])); { int e = SEC2(cSHAKE, Final, (C, q)); ret_(e); if (!e) put_(q, BYTES(a[1])); } break;
    case 33: q = new_(BYTES(a[1])); { int e = SEC2(cSHAKE, Squeeze, (C, q, a[1])); ret_(e); if (!e) put_(q, BYTES(a[1])); } break;
    case 34: p = in_(BYTES(a[1])); q = new_(BYTES(a[2])); r = in_(BYTES(a[3])); t = cust_(a[4]);
        { int e = SEC(cSHAKE, (p, a[1], q, a[2], r, a[3], t, a[4])); ret_(e); if (!e) put_(q, BYTES(a[2])); } break;
    case 40: OBJ(KMAC_Instance); p = in_(BYTES(a[2])); q = cust_(a[3]); ret_(SEC2(KMAC, Initialize, (K, p, a[2], a[1], q, a[3]))); break;
    case 41: p = in_(BYTES(a[1])); ret_(SEC2(KMAC, Update, (K, p, a[1]))); break;
    case 42: q = new_(BYTES(a[1])); { int e = SEC2(KMAC, Final, (K, q)); ret_(e); if (!e) put_(q, BYTES(a[1])); } break;
    case 43: q = new_(BYTES(a[1])); { int e = SEC2(KMAC, Squeeze, (K, q, a[1])); ret_(e); if (!e) put_(q, BYTES(a[1])); } break;
    case 44: p = in_(BYTES(a[1])); q = new_(BYTES(a[2])); r = in_(BYTES(a[3])); t = cust_(a[4]);
        { int e = SEC(KMAC, (r, a[3], p, a[1], q, a[2], t, a[4])); ret_(e); if (!e) put_(q, BYTES(a[2])); } break;
    case 50: OBJ(TupleHash_Instance); q = cust_(a[2]); ret_(SEC2(TupleHash, Initialize, (U, a[1], q, a[2]))); break;
    case 51: case 54: { /* up to three elements of a[2], a[3], a[4] bits; 54: one-shot with a[5] output bits and no customization */
        TupleElement e[3]; unsigned int i;
        TupleElement *v = malloc(a[1] * sizeof(TupleElement));
        for (i = 0; i < a[1]; i++) { e[i].input = in_(BYTES(a[2 + i])); e[i].inputBitLen = a[2 + i]; v[i] = e[i]; }
        if (op == 51) ret_(SEC2(TupleHash, Update, (U, v, a[1])));
        else { int x; q = new_(BYTES(a[5])); x = SEC(TupleHash, (v, a[1], q, a[5], (const unsigned char *)"Cu", 16)); ret_(x); if (!x) put_(q, BYTES(a[5])); }
        for (i = 0; i < a[1]; i++) free((void *)e[i].input);
        free(v);
        } break;
    case 52: q = new_(BYTES(a[1])); { int e = SEC2(TupleHash, Final, (U, q)); ret_(e); if (!e) put_(q, BYTES(a[1])); } break;
    case 53: q = new_(BYTES(a[1])); { int e = SEC2(TupleHash, Squeeze, (U, q, a[1])); ret_(e); if (!e) put_(q, BYTES(a[1])); } break;
    case 60: OBJ(ParallelHash_Instance); q = in_(BYTES(a[3])); ret_(SEC2(ParallelHash, Initialize, (P, (size_t)a[2] | (size_t)a[4] << 32, a[1], q, a[3]))); break;
    case 61: p = in_(BYTES(a[1])); ret_(SEC2(ParallelHash, Update, (P, p, a[1]))); break;
    case 62: q = new_(BYTES(a[1])); { int e = SEC2(ParallelHash, Final, (P, q)); ret_(e); if (!e) put_(q, BYTES(a[1])); } break;
    case 63: q = new_(BYTES(a[1])); { int e = SEC2(ParallelHash, Squeeze, (P, q, a[1])); ret_(e); if (!e) put_(q, BYTES(a[1])); } break;
    case 64: p = in_(BYTES(a[1])); q = new_(BYTES(a[2])); t = in_(BYTES(a[4]));
        { int e = SEC(ParallelHash, (p, a[1], a[3], q, a[2], t, a[4])); ret_(e); if (!e) put_(q, BYTES(a[2])); } break;
    }
    free(p); free(q); free(r); free(t);
}
