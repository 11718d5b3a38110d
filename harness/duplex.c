/* Duplex and PRG objects driven by a script. */
#include "mode.h"
#include "KeccakDuplex.h"
#include "KeccakPRG.h"
#define D ((KeccakWidth1600_DuplexInstance *)o[s])
#define G ((KeccakWidth1600_SpongePRG_Instance *)o[s])
SCRIPT(h_duplex)
{
    unsigned char *p = 0, *q = 0;
    switch (op) {
    case 1: OBJ(KeccakWidth1600_DuplexInstance); ret_(KeccakWidth1600_DuplexInitialize(D, a[0], a[1])); break;
    case 2: p = in_(a[0]); q = new_(a[1]); { int e = KeccakWidth1600_Duplexing(D, p, a[0], q, a[1], (unsigned char)a[2]); ret_(e); if (!e) put_(q, a[1]); } break;
    case 3: p = in_(a[0]); ret_(KeccakWidth1600_DuplexingFeedPartialInput(D, p, a[0])); break;
    case 4: ret_(KeccakWidth1600_DuplexingFeedZeroes(D, a[0])); break;
    case 5: p = in_(a[0]); ret_(KeccakWidth1600_DuplexingOverwritePartialInput(D, p, a[0])); break;
    case 6: ret_(KeccakWidth1600_DuplexingOverwriteWithZeroes(D, a[0])); break;
    case 7: q = new_(a[0]); { int e = KeccakWidth1600_DuplexingGetFurtherOutput(D, q, a[0]); ret_(e); if (!e) put_(q, a[0]); } break;
    case 8: p = in_(a[0]); q = new_(a[0]); { int e = KeccakWidth1600_DuplexingGetFurtherOutputAndAdd(D, p, q, a[0]); ret_(e); if (!e) put_(q, a[0]); } break;
    case 9: p = in_(a[0]); { int e = KeccakWidth1600_DuplexingGetFurtherOutputAndAdd(D, p, p, a[0]); ret_(e); if (!e) put_(p, a[0]); } break;
    case 10: p = in_(a[0]); q = new_(a[1]); { unsigned char *d = in_(1); int e = KeccakWidth1600_Duplexing(D, p, a[0], q, a[1], *d); free(d); ret_(e); put_(q, a[1]); } break;
    case 20: OBJ(KeccakWidth1600_SpongePRG_Instance); ret_(KeccakWidth1600_SpongePRG_Initialize(G, a[0])); break;
    case 21: p = in_(a[0]); ret_(KeccakWidth1600_SpongePRG_Feed(G, p, a[0])); break;
    case 22: q = new_(a[0]); { int e = KeccakWidth1600_SpongePRG_Fetch(G, q, a[0]); ret_(e); if (!e) put_(q, a[0]); } break;
    case 23: ret_(KeccakWidth1600_SpongePRG_Forget(G)); break;
    case 24: { unsigned char *t = new_(200); KeccakP1600_ExtractBytes(&G->duplex.state, t, 0, 200); put_(t, 200); free(t); } break;
    }
    free(p); free(q);
}
