#include <stddef.h>
#include "KeccakP-1600-SnP.h"
/* in, out: 200 bytes. */
void h_perm(const unsigned char *in, unsigned char *out, unsigned int n)
{
    KeccakP1600_state s;
    KeccakP1600_StaticInitialize();
    KeccakP1600_Initialize(&s);
    KeccakP1600_AddBytes(&s, in, 0, 200);
    if (n == 112) KeccakP1600_Permute_12rounds(&s);
    else if (n == 124) KeccakP1600_Permute_24rounds(&s);
    else KeccakP1600_Permute_Nrounds(&s, n);
    KeccakP1600_ExtractBytes(&s, out, 0, 200);
}
