/* KangarooTwelve functions driven by a script. */
#include "mode.h"
#include "KangarooTwelve.h"
#define K ((KangarooTwelve_Instance *)o[s])
SCRIPT(h_kt)
{
    unsigned char *p = 0, *q = 0, *r = 0;
    int e;
    switch (op) {
    case 1: OBJ(KangarooTwelve_Instance);
        if (a[0] == 128) { e = KT128_Initialize(K, a[1]); }
        else if (a[0] == 256) { e = KT256_Initialize(K, a[1]); }
        else e = KangarooTwelve_Initialize(K, (int)a[0], a[1]);
        ret_(e); break;
    case 2: p = in_(a[0]); ret_(KangarooTwelve_Update(K, p, a[0])); break;
    case 3: q = new_(a[0]); r = in_(a[1]); e = KangarooTwelve_Final(K, q, r, a[1]); ret_(e); if (!e) put_(q, a[0]); break;
    case 4: q = new_(a[0]); e = KangarooTwelve_Squeeze(K, q, a[0]); ret_(e); if (!e) put_(q, a[0]); break;
    case 5: p = in_(a[1]); q = new_(a[2]); r = in_(a[3]);
        e = a[0] == 128 ? KT128(p, a[1], q, a[2], r, a[3]) : a[0] == 256 ? KT256(p, a[1], q, a[2], r, a[3]) : KangarooTwelve((int)a[0], p, a[1], q, a[2], r, a[3]);
        ret_(e); if (!e) put_(q, a[2]); break;
    }
    free(p); free(q); free(r);
}
