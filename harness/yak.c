/* Xoodyak objects driven by a script. Empty inputs are passed as null pointers when bit 0 of the last argument is set;
   bit 1 makes encryption and decryption work in place. */
#include "mode.h"
#include "Xoodyak.h"
#define X ((Xoodyak_Instance *)o[s])
static unsigned char *arg_(size_t n, uint32_t nul)
{ return n == 0 && (nul & 1) ? 0 : in_(n); }
SCRIPT(h_yak)
{
    unsigned char *p = 0, *q = 0, *r = 0;
    switch (op) {
    case 1: OBJ(Xoodyak_Instance); p = arg_(a[0], a[5]); q = arg_(a[1], a[5]); r = arg_(a[2], a[5]);
        Xoodyak_Initialize(X, p, a[0], q, a[1], r, a[2]); break;
    case 2: p = arg_(a[0], a[5]); Xoodyak_Absorb(X, p, a[0]); break;
    case 3: case 4:
        p = inf_(a[0], a[1]);
        if (a[5] & 2) q = p; else q = new_(a[0]);
        if (op == 3) Xoodyak_Encrypt(X, p, q, a[0]); else Xoodyak_Decrypt(X, p, q, a[0]);
        put_(q, a[0]);
        if (q == p) q = 0;
        break;
    case 5: q = new_(a[0]); Xoodyak_Squeeze(X, q, a[0]); put_(q, a[0]); break;
    case 6: q = new_(a[0]); Xoodyak_SqueezeKey(X, q, a[0]); put_(q, a[0]); break;
    case 7: Xoodyak_Ratchet(X); break;
    }
    free(p); free(q); free(r);
}
