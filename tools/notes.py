SE = 'symbolic execution of LLVM IR / x86-64 code with SMT (z3) equivalence to a specification'
TB = ' Trusts the clang -O1 front end (C) or objdump decoding (assembly), the term rewriter, z3 and the Python specification.'
NA = {}
NOTES['C01'] = (SE, 'For every 1600-bit state and each round count 1..24, all 16 implementations, no sampling.' + TB)
BN = 'Bounds per run are listed in the evidence file.'
NOTES['C02'] = (SE, 'All states and data; every (operation, offset, length) of all 16 single implementations, plus random operation sequences.' + TB)
NOTES['C03'] = (SE, 'All states and data; 16 parallel implementations; every instance and offset, stratified lengths in quick, all lengths in thorough.' + TB)
NOTES['C04'] = (SE, 'All states and data; every lane count for single absorption, representative lane counts and offsets for parallel absorption, whole leaves; up to 3 groups.' + TB)
NOTES['C05'] = (SE, 'All states; 9 implementations, every instance, 6, 12 and n rounds.' + TB)
NOTES['C06'] = (SE, 'All states and data; every (operation, offset, length) of the single implementations; stratified lengths for the parallel ones in quick.' + TB)
NOTES['C07'] = (SE, 'All states and data; one to four groups of blocks with and without remainder, out of place and in place.' + TB)
MD = ' Permutations and low-level services are uninterpreted functions / contracts (established by C01-C07). Lengths and call histories are enumerated or drawn (see bounds in the evidence); all data is symbolic.' + TB
NOTES['C08'] = (SE, 'All data; every rate multiple of 8; lengths around every block boundary, random splittings; delimited suffixes.' + MD)
NOTES['C09'] = (SE, 'All data; every message bit length around block boundaries; random splittings of input and output; every output size.' + MD)
NOTES['C10'] = (SE, 'All data; bit-granular lengths of key, customization, name, tuples and message around encoding and block boundaries.' + MD)
NOTES['C11'] = (SE, 'All data; block sizes 1 to several rates and huge ones; splittings; all degrees of parallelism.' + MD)
NOTES['C12'] = (SE, 'All data; all capacities offered, domain bytes, splittings.' + MD)
NOTES['C13'] = (SE, 'All data; 0 to 40 chunks and one 257-leaf message, around every chunk boundary, splittings.' + MD)
NOTES['C14'] = (SE, 'All data; bit-granular rates, random call histories including refused calls at the exact limits.' + MD)
NOTES['C15'] = (SE, 'All data; capacities, random histories of feed, fetch, forget.' + MD)
NOTES['C16'] = (SE, 'All data; bit-granular keys, messages and outputs around byte and block boundaries of the parallel groups, random histories with refused calls, init/last/short flags.' + MD)
NOTES['C17'] = (SE, 'All data; bit-granular keys, messages and outputs around byte and block boundaries of the parallel groups, random histories with refused calls, init/last/short flags.' + MD)
NOTES['C18'] = (SE, 'All data; bit-granular plaintext and metadata, sessions of up to four messages, round trips between two instances, forged messages with symbolic ciphertext and tag (both outcomes of the comparison explored).' + MD)
NOTES['C19'] = NOTES['C18']
NOTES['C20'] = (SE, 'All data; bit-granular texts of 0 to 40 blocks around every split boundary, tweaks up to 5 blocks, both inverse identities, forged AE ciphertexts.' + MD)
NOTES['C21'] = (SE, 'All data; keys, identifiers, counters and data up to 800 bytes around every rate boundary, random histories in hash and keyed mode, two-sided sessions, in place and out of place.' + MD)
NOTES['C28'] = (SE, 'All data; 14 targets; a common list of calls of every module with contracts at the low level, and whole programs (real permutations and low-level code, nothing replaced) on messages of a few blocks.' + TB)
