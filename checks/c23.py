"""C23: no branch and no address depends on message, key or state contents."""
import observe


def main():
    c = observe.main('C23', 'branch')
    c.assumptions = ['judged on the LLVM IR clang -O1 makes of the C code and on the assembled machine code of the assembly files',
                     'the outcome of the final tag comparison may steer control flow: calls that present a wrong tag are not judged',
                     'memcmp, memcpy and memset of the C library are taken to be free of data-dependent timing']
    c.run()
