/* Deck functions and their modes driven by a script; compiled for Kravatte or (with -DXOOFFF) Xoofff. */
#include "mode.h"
#ifdef XOOFFF
#include "Xoofff.h"
#include "XoofffModes.h"
#define T_DECK Xoofff_Instance
#define T_SANE XoofffSANE_Instance
#define T_SANSE XoofffSANSE_Instance
#define MASK Xoofff_MaskDerivation
#define COMPRESS Xoofff_Compress
#define EXPAND Xoofff_Expand
#define BOTH Xoofff
#define SANE(f) XoofffSANE_##f
#define SANSE(f) XoofffSANSE_##f
#define WBC(f) XoofffWBC_##f
#define WBCAE(f) XoofffWBCAE_##f
#else
#include "Kravatte.h"
#include "KravatteModes.h"
#define T_DECK Kravatte_Instance
#define T_SANE Kravatte_SANE_Instance
#define T_SANSE Kravatte_SANSE_Instance
#define MASK Kravatte_MaskDerivation
#define COMPRESS Kra
#define EXPAND Vatte
#define BOTH Kravatte
#define SANE(f) Kravatte_SANE_##f
#define SANSE(f) Kravatte_SANSE_##f
#define WBC(f) Kravatte_WBC_##f
#define WBCAE(f) Kravatte_WBCAE_##f
#endif
#define D ((T_DECK *)o[s])
#define AE ((T_SANE *)o[s])
#define SE ((T_SANSE *)o[s])
SCRIPT(h_deck)
{
    unsigned char *p = 0, *q = 0, *r = 0, *t = 0;
    int e;
    switch (op) {
    case 1: OBJ(T_DECK); p = in_(BYTES(a[0])); ret_(MASK(D, p, a[0])); break;
    case 2: p = in_(BYTES(a[0])); ret_(COMPRESS(D, p, a[0], (int)a[1])); break;
    case 3: q = new_(BYTES(a[0])); e = EXPAND(D, q, a[0], (int)a[1]); ret_(e); if (!e) put_(q, BYTES(a[0])); break;
    case 4: p = in_(BYTES(a[0])); q = new_(BYTES(a[1])); e = BOTH(D, p, a[0], q, a[1], (int)a[2]); ret_(e); if (!e) put_(q, BYTES(a[1])); break;

    case 10: OBJ(T_SANE); p = in_(BYTES(a[0])); r = in_(BYTES(a[1])); t = new_(16); e = SANE(Initialize)(AE, p, a[0], r, a[1], t); ret_(e); if (!e) put_(t, 16); break;
    case 11: p = in_(BYTES(a[0])); r = in_(BYTES(a[1])); q = new_(BYTES(a[0])); t = new_(16);
        e = SANE(Wrap)(AE, p, q, a[0], r, a[1], t); ret_(e); put_(q, BYTES(a[0])); put_(t, 16); break;
    case 12: p = inf_(BYTES(a[0]), a[2]); r = in_(BYTES(a[1])); t = inf_(16, a[3]); q = new_(BYTES(a[0]));
        e = SANE(Unwrap)(AE, p, q, a[0], r, a[1], t); ret_(e); put_(q, BYTES(a[0])); break;

    case 20: OBJ(T_SANSE); p = in_(BYTES(a[0])); ret_(SANSE(Initialize)(SE, p, a[0])); break;
    case 21: p = in_(BYTES(a[0])); r = in_(BYTES(a[1])); q = new_(BYTES(a[0])); t = new_(32);
        e = SANSE(Wrap)(SE, p, q, a[0], r, a[1], t); ret_(e); put_(q, BYTES(a[0])); put_(t, 32); break;
    case 22: p = inf_(BYTES(a[0]), a[2]); r = in_(BYTES(a[1])); t = inf_(32, a[3]); q = new_(BYTES(a[0]));
        e = SANSE(Unwrap)(SE, p, q, a[0], r, a[1], t); ret_(e); put_(q, BYTES(a[0])); break;

    case 30: p = inf_(BYTES(a[0]), a[2]); r = in_(BYTES(a[1])); q = new_(BYTES(a[0]));
        ret_(WBC(Encipher)(D, p, q, a[0], r, a[1])); put_(q, BYTES(a[0])); break;
    case 31: p = inf_(BYTES(a[0]), a[2]); r = in_(BYTES(a[1])); q = new_(BYTES(a[0]));
        ret_(WBC(Decipher)(D, p, q, a[0], r, a[1])); put_(q, BYTES(a[0])); break;
    case 32: p = new_(BYTES(a[0] + 128)); t = in_(BYTES(a[0])); memcpy(p, t, BYTES(a[0])); r = in_(BYTES(a[1])); q = new_(BYTES(a[0] + 128));
        ret_(WBCAE(Encipher)(D, p, q, a[0], r, a[1])); put_(q, BYTES(a[0] + 128)); break;
    case 33: p = inf_(BYTES(a[0] + 128), a[2]); r = in_(BYTES(a[1])); q = new_(BYTES(a[0] + 128));
        ret_(WBCAE(Decipher)(D, p, q, a[0], r, a[1])); put_(q, BYTES(a[0] + 128)); break;
    }
    free(p); free(q); free(r); free(t);
}
