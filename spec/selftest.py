import sys, hashlib
sys.path[:0]=['/verif/engine','/verif/spec']
import keccak as k
def sponge(rate,d,msg,out):
    b=bytearray(msg)+bytearray([d]); b+=bytes(-len(b)%rate); b[-1]^=0x80
    A=[0]*25
    for i in range(0,len(b),rate):
        for j in range(rate//8): A[j]^=int.from_bytes(b[i+8*j:i+8*j+8],'little')
        A=k.keccak_p(A)
    return b''.join(x.to_bytes(8,'little') for x in A)[:out]
assert sponge(136,6,b'abc',32)==hashlib.sha3_256(b'abc').digest()
assert sponge(168,0x1f,b'x'*500,32)==hashlib.shake_128(b'x'*500).digest(32)
A=[0]*12
for i in range(384): A=k.xoodoo(A)
print(b''.join(x.to_bytes(4,'little') for x in A).hex())
