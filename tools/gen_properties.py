"""Writes /verif/properties.jsonl."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'state': list(state),
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


L = 'lib/low/'
Hh = 'lib/high/'
p('C01', 'Every Keccak-p[1600] implementation computes the FIPS 202 permutation',
  'For every 1600-bit state, applying the permutation with n rounds through any of the library\'s portable C and x86-64 '
  'implementations gives exactly the state defined by FIPS 202 for Keccak-p[1600, n]. This covers the 12-round, 24-round and '
  'n-round (1 to 24) entry points, whatever the internal representation, unrolling or instruction set.',
  ['inputs', 'configurations'], 'all 2^1600 states; n = 1..24; every single-state x86-64/portable implementation in the build',
  'Unit tests run a handful of fixed states per implementation (and cannot run the XOP ones at all); a wrong lane, rotation or '
  'round constant on a path taken only for some round counts is not reached.',
  [L + 'KeccakP-1600', 'lib/LowLevel.build'],
  [('round macros and unrolling', L + 'KeccakP-1600/common/KeccakP-1600-64.macros'),
   ('assembly permutations', L + 'KeccakP-1600/AVX2/KeccakP-1600-AVX2.s')], ['KeccakP1600_Permute_*'])
p('C02', 'Byte-level access to a Keccak state touches exactly the addressed bytes',
  'For every offset and length within the 200-byte state, adding, overwriting, zeroing, extracting and extract-and-adding bytes '
  'change or return exactly the addressed bytes of the abstract state (XOR, replacement, zero, copy, XOR with input), leave '
  'every other byte unchanged, and read and write only the given number of bytes of the caller\'s buffers. A freshly '
  'initialised state is all zero. This holds for every portable C and x86-64 implementation.',
  ['inputs', 'configurations'], 'all offsets and lengths with offset+length <= 200, all data, all implementations',
  'There are 20301 (offset, length) pairs per operation and implementation and the unit tests compare checksums of a sweep '
  'with fixed data for some of them; data-dependent and cross-operation effects are sampled only.',
  [L + 'KeccakP-1600', L + 'common/SnP-Relaned.h'],
  [('lane-wise splitting of byte ranges', L + 'common/SnP-Relaned.h')], ['KeccakP1600_AddBytes etc.'])
p('C03', 'Parallel Keccak instances behave as independent single Keccak states',
  'A parallel object of 2, 4 or 8 Keccak states behaves exactly like that many independent states: byte operations on one '
  'instance affect only it, operations on all instances (zeroing, permuting, adding, overwriting, extracting lanes with any '
  'lane count and lane offset) equal the same operation on each instance separately, and the permutation of each instance '
  'is Keccak-p[1600, n].', ['inputs', 'configurations'],
  'all states and data; all instances; all lane counts and offsets; all SSSE3/XOP/AVX2/AVX-512 and fallback implementations',
  'Unit tests use a few fixed data patterns; a cross-talk between instances that needs a particular instance, lane count '
  'and offset together is sampled, XOP code is never executed.',
  [L + 'KeccakP-1600-times2', L + 'KeccakP-1600-times4', L + 'KeccakP-1600-times8', L + 'common/PlSnP-Fallback.inc'],
  [('SIMD lane interleaving', L + 'KeccakP-1600-times4/AVX2/KeccakP-1600-times4-SIMD256.c')],
  ['KeccakP1600timesN_*'])
p('C04', 'Bulk Keccak fast paths equal the block-by-block computation',
  'Absorbing many blocks at once (for a single state or several parallel states, 12 or 24 rounds, any lane count and data '
  'length) processes exactly the whole blocks that fit, returns the number of bytes consumed, and leaves the same state as '
  'absorbing each block and permuting one at a time. The specialised parallel routines for tree-hash leaves and for the '
  'deck-function compression and expansion likewise give the same chaining values, accumulators and output as the serial '
  'definition.', ['inputs', 'configurations'],
  'all states and data; lane counts 1..25; block counts up to the stated bound; all implementations providing the routine',
  'Tests compare digests for some lengths; each fast path has its own loop bounds, offsets and leftovers, exercised with '
  'a few fixed inputs only.',
  [L + 'KeccakP-1600', L + 'KeccakP-1600-times2', L + 'KeccakP-1600-times4', L + 'KeccakP-1600-times8'],
  [('FastLoop_Absorb', L + 'KeccakP-1600/plain-64bits/KeccakP-1600-opt64.c')], ['*_FastLoop_Absorb, *ProcessLeaves, *FastKravatte*'])
p('C05', 'Every Xoodoo implementation, single or parallel, computes the Xoodoo permutation',
  'For every 384-bit state, the 6-round, 12-round and n-round Xoodoo permutations give exactly the state of the published '
  'Xoodoo specification, in the single-state implementations and in each instance of the 4-, 8- and 16-way parallel ones, '
  'without any influence between instances.', ['inputs', 'configurations'],
  'all states; n = 1..12 where offered; all portable, SSE2, SSSE3, AVX2 and AVX-512 implementations; every instance',
  'Tests run fixed states and compare checksums.',
  [L + 'Xoodoo', L + 'Xoodoo-times4', L + 'Xoodoo-times8', L + 'Xoodoo-times16'],
  [('round macros', L + 'Xoodoo/plain/Xoodoo-optimized.c')], ['Xoodoo_Permute_*', 'XoodootimesN_PermuteAll_*'])
p('C06', 'Byte- and lane-level access to Xoodoo states touches exactly the addressed data',
  'For every offset and length within the 48-byte state, adding, overwriting, zeroing, extracting and extract-and-adding bytes '
  'on a Xoodoo state, or on any instance of a parallel Xoodoo object, change or return exactly the addressed bytes and nothing '
  'else; the operations on all instances equal the single-instance operation applied to each.', ['inputs', 'configurations'],
  'all offsets and lengths, all data, all instances and implementations',
  'Tests sweep some offsets and lengths with fixed data and compare checksums.',
  [L + 'Xoodoo', L + 'Xoodoo-times4', L + 'Xoodoo-times8', L + 'Xoodoo-times16', L + 'common/SnP-Relaned.h'],
  [('lane-wise access', L + 'Xoodoo/plain/Xoodoo-optimized.c')], ['Xoodoo_AddBytes etc.'])
p('C07', 'Bulk Xoodoo routines equal the block-by-block computation',
  'The specialised routines that process several blocks at once - mask-rolling compression and expansion of the Xoofff deck '
  'function, and the multi-block absorb, squeeze, encrypt and decrypt routines of Xoodyak - consume and produce exactly the '
  'whole blocks given and leave the same state and output as the one-block-at-a-time definition.',
  ['inputs', 'configurations'], 'all states and data; block counts up to the stated bound; all implementations providing them',
  'Tests only compare final digests for fixed inputs on the machine they run on.',
  [L + 'Xoodoo', L + 'Xoodoo-times4', L + 'Xoodoo-times8', L + 'Xoodoo-times16', Hh + 'Xoofff/Xoofff.c'],
  [('Xoofff_CompressFastLoop/ExpandFastLoop', L + 'Xoodoo-times4'), ('Xoodyak full-block routines', L + 'Xoodoo')], [])
p('C08', 'The sponge implements Keccak[r,c] for any rate, length and call splitting',
  'For every rate and capacity summing to 1600 with the rate a multiple of 8, every message of whole bytes, every delimited '
  'suffix of up to 7 bits and every output length, the output is that of the sponge construction with multi-rate padding; '
  'it does not depend on how the message is split over absorb calls or the output over squeeze calls, one-shot or '
  'incremental. Invalid rates, suffixes, and absorbing or padding after squeezing has begun are reported as errors.',
  ['inputs', 'histories', 'configurations'], 'all rates multiple of 8 with r+c=1600, all message lengths and contents, all splittings, all suffixes, with and without fast paths',
  'Known-answer tests fix the data and a few hundred lengths and splittings; the property quantifies over all call '
  'histories, lengths and rates.',
  [Hh + 'Keccak/KeccakSponge.inc', Hh + 'Keccak/KeccakSponge.c', Hh + 'Keccak/KeccakSponge.h'],
  [('byteIOIndex bookkeeping', Hh + 'Keccak/KeccakSponge.inc')], ['KeccakWidth1600_Sponge*'],
  [{'name': 'byteIOIndex', 'meaning': 'bytes of the current block already absorbed or squeezed', 'where': Hh + 'Keccak/KeccakSponge.h'}])
p('C09', 'SHA-3 and SHAKE outputs conform to FIPS 202 for every message bit length',
  'SHA3-224/256/384/512 and SHAKE128/256, through the one-shot functions and through the init/update/final/squeeze interface, '
  'give the FIPS 202 result for every message, including messages whose bit length is not a multiple of 8, for every '
  'splitting of the message and of the extendable output. Bits of a partial last byte beyond the stated length never '
  'influence the result, and squeezing an output length that is not a whole number of bytes is refused.',
  ['inputs', 'histories'], 'all messages (any bit length), all splittings, all output lengths',
  'ShortMsgKAT-style tests use one fixed message per length; dirty padding bits and odd splittings are sampled.',
  [Hh + 'Keccak/FIPS202/KeccakHash.c', Hh + 'Keccak/FIPS202/KeccakHash.h', Hh + 'Keccak/FIPS202/SimpleFIPS202.c'],
  [('delimitedSuffix and last-byte masking', Hh + 'Keccak/FIPS202/KeccakHash.c')], ['Keccak_Hash*', 'SHA3_*', 'SHAKE*'])
p('C10', 'cSHAKE, KMAC and TupleHash conform to SP 800-185 and stay domain separated',
  'cSHAKE128/256, KMAC128/256 and TupleHash128/256 (and their XOF variants) give the SP 800-185 result for every function '
  'name, customization string, key, tuple, message and output length, including bit lengths that are not multiples of 8, '
  'one-shot or incremental with any splitting. The integer and string encodings are exact for every length, so two different '
  'parameter tuples never feed the permutation the same input; unused bits of partial bytes never influence results.',
  ['inputs', 'histories'], 'all strings and lengths (bit-granular where offered), all splittings, fixed- and arbitrary-length output',
  'Checksum tests sample lengths; encodings change form at 2^8, 2^16, ... bits that short tests never reach.',
  [Hh + 'Keccak/SP800-185/SP800-185.inc', Hh + 'Keccak/SP800-185/SP800-185.c', Hh + 'Keccak/SP800-185/SP800-185.h'],
  [('left/right_encode, encode_string, bytepad', Hh + 'Keccak/SP800-185/SP800-185.inc')], ['cSHAKE*', 'KMAC*', 'TupleHash*'])
p('C11', 'ParallelHash equals SP 800-185 for every block size, length and splitting',
  'ParallelHash128/256 and their XOF variants give the SP 800-185 result for every message, block size, customization string '
  'and output length, whatever the splitting over update calls and whichever degree of parallelism the build uses for whole '
  'blocks.', ['inputs', 'histories', 'configurations'],
  'all messages, block sizes that are powers of two as accepted by the interface, all splittings, builds with 1-, 2-, 4-, 8-way parallelism',
  'Tests use a few block sizes and fixed data; the parallel paths depend on the alignment of update calls with blocks.',
  [Hh + 'Keccak/SP800-185/SP800-185.inc'], [('queue node and parallel leaf processing', Hh + 'Keccak/SP800-185/SP800-185.inc')],
  ['ParallelHash*'])
p('C12', 'TurboSHAKE conforms to RFC 9861 for every message, domain byte and splitting',
  'TurboSHAKE128/256 (and general capacities offered) equal the 12-round sponge with the given non-zero domain separation '
  'byte for every message and output length, one-shot or with any splitting of input and output; a zero domain byte, an '
  'unsupported capacity and calls in the wrong phase are rejected.', ['inputs', 'histories'], 'all messages, domain bytes, output lengths, splittings',
  'Tests use fixed data and a few domain bytes.', [Hh + 'TurboSHAKE/TurboSHAKE.c', Hh + 'TurboSHAKE/TurboSHAKE.h'],
  [('12-round sponge', Hh + 'TurboSHAKE/TurboSHAKE.c')], ['TurboSHAKE*'])
p('C13', 'KangarooTwelve (KT128, KT256) conforms to RFC 9861 for every input and splitting',
  'KT128 and KT256 give the RFC 9861 result for every message, customization string and output length, across all tree sizes, '
  'independent of how the message is split over update calls, of how output is split, and of the degree of parallelism used '
  'for the leaves.', ['inputs', 'histories', 'configurations'],
  'all messages and customization strings, all splittings, builds with 1-, 2-, 4-, 8-way leaf processing',
  'Tests use fixed patterned data at a few lengths; leaf scheduling depends on the joint alignment of update calls and '
  'the 8192-byte chunk grid.', [Hh + 'KangarooTwelve/KangarooTwelve.c', Hh + 'KangarooTwelve/KangarooTwelve.h'],
  [('queueAbsorbedLen, blockNumber, leaf fast paths', Hh + 'KangarooTwelve/KangarooTwelve.c')], ['KangarooTwelve*', 'KT128', 'KT256'])
p('C14', 'The duplex object follows the duplex construction at every rate and call history',
  'For every rate up to the documented maximum (bit-granular) and every sequence of feeding partial input, duplexing and '
  'getting further output, each output equals the duplex construction applied to the concatenated input of that call with '
  'the given delimited suffix. Requests exceeding the maximum input or output length of a duplexing step are refused '
  'without any change of state.', ['inputs', 'histories'],
  'all rates, suffixes, inputs and output lengths; all call histories up to the stated bound',
  'Tests use a pseudo-random walk at a few rates with fixed seeds; refused requests after partial feeding are not tried.',
  [Hh + 'Keccak/KeccakDuplex.inc', Hh + 'Keccak/KeccakDuplex.h'], [('byteInputIndex/byteOutputIndex', Hh + 'Keccak/KeccakDuplex.inc')],
  ['KeccakWidth1600_Duplex*'])
p('C15', 'The pseudo-random generator follows its sponge definition and forget erases',
  'The output of the sponge-based pseudo-random generator equals the duplexing of the seed material fed so far, for any '
  'interleaving and splitting of feeding and fetching. Forgetting overwrites the rate part of the state as documented so that '
  'the state no longer determines earlier outputs, and it is refused when the capacity is larger than the rate.',
  ['inputs', 'histories'], 'all capacities accepted, all feed/fetch/forget histories up to the stated bound, all data',
  'Tests compare a checksum of one fixed walk.',
  [Hh + 'Keccak/PRG/KeccakPRG.inc', Hh + 'Keccak/PRG/KeccakPRG.h'], [('duplex use', Hh + 'Keccak/PRG/KeccakPRG.inc')], ['KeccakWidth1600_SpongePRG*'])
p('C16', 'Kravatte computes the Farfalle definition for any key, input strings and offsets',
  'Kravatte Achouffe equals its Farfalle definition for every key of valid length, every sequence of input strings '
  '(bit-granular, any splitting), and every output length and splitting, and with every combination of parallel and serial '
  'processing. Unused bits of a partial last byte do not influence the result, and the short (kernel-sharing) and normal '
  'forms follow their definitions.', ['inputs', 'histories', 'configurations'],
  'all keys, strings, lengths, splittings, flags; builds with 1-, 2-, 4-, 8-way parallelism',
  'Checksum tests sample lengths and flags with patterned data; partial-byte garbage is not tried.',
  [Hh + 'Kravatte/Kravatte.c', Hh + 'Kravatte/Kravatte.h'], [('rolling masks, queue', Hh + 'Kravatte/Kravatte.c')], ['Kravatte*', 'Kra', 'Vatte'])
p('C17', 'Xoofff computes the Farfalle definition for any key, input strings and offsets',
  'Xoofff equals its Farfalle definition for every key of valid length, every sequence of input strings (bit-granular, any '
  'splitting), and every output length and splitting, whatever the degree of parallelism used. Unused bits of a partial last '
  'byte do not influence the result.', ['inputs', 'histories', 'configurations'],
  'all keys, strings, lengths, splittings, flags; builds with 1-, 4-, 8-, 16-way parallelism',
  'Checksum tests sample lengths and flags with patterned data.',
  [Hh + 'Xoofff/Xoofff.c', Hh + 'Xoofff/Xoofff.h'], [('rolling masks, queue', Hh + 'Xoofff/Xoofff.c')], ['Xoofff*'])
p('C18', 'SANE sessions round-trip, authenticate and stay synchronised',
  'In both SANE modes, unwrapping what was wrapped under the same key, nonce and history returns the plaintext and leaves both '
  'sessions in the same state, for all lengths of metadata and plaintext including empty and bit-granular ones; cryptogram and '
  'tag equal the published definition. If the tag does not match, unwrapping reports failure and the plaintext buffer holds '
  'no plaintext.', ['inputs', 'histories'], 'all keys, nonces, metadata, plaintexts, tags; sessions up to the stated number of messages',
  'Tests round-trip fixed data and do not explore tag forgeries or session histories broadly.',
  [Hh + 'Kravatte/KravatteModes.c', Hh + 'Xoofff/XoofffModes.c'], [('toggle bit e, history', Hh + 'Kravatte/KravatteModes.c')],
  ['Kravatte_SANE_*', 'XoofffSANE_*'])
p('C19', 'SANSE sessions round-trip, authenticate and stay synchronised',
  'In both SANSE modes, unwrapping what was wrapped under the same key and history returns the plaintext and leaves both '
  'sessions in the same state, for all lengths of metadata and plaintext including empty and bit-granular ones; cryptogram and '
  'tag equal the published definition. If the tag does not match, unwrapping reports failure and the plaintext buffer holds '
  'no plaintext.', ['inputs', 'histories'], 'all keys, metadata, plaintexts, tags; sessions up to the stated number of messages',
  'Tests round-trip fixed data and do not explore forgeries or session histories broadly.',
  [Hh + 'Kravatte/KravatteModes.c', Hh + 'Xoofff/XoofffModes.c'], [('toggle bit e, SIV tag', Hh + 'Kravatte/KravatteModes.c')],
  ['Kravatte_SANSE_*', 'XoofffSANSE_*'])
p('C20', 'WBC and WBC-AE are exact inverses and reject non-redundant ciphertexts',
  'For every key, tweak and block of an accepted length, wide-block decryption inverts encryption and encryption inverts '
  'decryption, and both equal the published definition; the authenticated variant returns the plaintext for every genuine '
  'ciphertext and reports failure, without returning plaintext, whenever the redundancy is wrong.',
  ['inputs'], 'all keys, tweaks, data; lengths over the stated grid, including bit-granular ones; Kravatte and Xoofff',
  'Tests round-trip fixed data for sampled lengths; the split point depends on the length in several regimes.',
  [Hh + 'Kravatte/KravatteModes.c', Hh + 'Xoofff/XoofffModes.c'], [('split and four rounds', Hh + 'Kravatte/KravatteModes.c')],
  ['Kravatte_WBC*', 'XoofffWBC*'])
p('C21', 'Xoodyak follows the Cyclist definition in every mode and history',
  'For every sequence of operations (keyed or hash mode: absorb, encrypt, decrypt, squeeze, squeeze key, ratchet) each output '
  'equals the published Cyclist definition of Xoodyak, for all data, lengths and identifiers or counters; decrypting an '
  'encryption made with the same history returns the plaintext and leaves both sides in the same state. Results are the same '
  'with and without the multi-block fast paths.', ['inputs', 'histories', 'configurations'],
  'all data; operation sequences and lengths over the stated bounds; generic and fast-path builds',
  'Known-answer files fix the data and a few operation orders.',
  [Hh + 'Xoodyak/Cyclist.inc', Hh + 'Xoodyak/Xoodyak.c', Hh + 'Xoodyak/Cyclist.h'], [('phase and mode', Hh + 'Xoodyak/Cyclist.inc')],
  ['Xoodyak_*'], [{'name': 'phase, mode, Rabsorb, Rsqueeze', 'meaning': 'Cyclist state', 'where': Hh + 'Xoodyak/Cyclist.h'}])
p('C22', 'No public function reads or writes outside the buffers it was given',
  'For every valid call of the public functions, all reads stay within the input buffers and all writes within the output '
  'buffers at the lengths the caller stated, no read depends on memory that was never written, and internal tables and states '
  'are never indexed out of bounds.', ['inputs', 'histories', 'configurations'],
  'all lengths including 0 and lengths around every block and word boundary; rejected calls as well',
  'Tests run without bounds instrumentation in oversized static buffers, so an overread or an off-by-one write is invisible.',
  ['lib/high', 'lib/low'], [('length arithmetic', Hh + 'Keccak/KeccakSponge.inc')], [])
p('C23', 'Control flow and memory addresses do not depend on secret data',
  'The sequence of branches taken and of memory addresses accessed by the permutations, the state access functions and the '
  'hash, XOF, MAC, deck-function and encryption functions depends only on public lengths and parameters, never on the contents '
  'of messages, keys or states; the final tag comparison is the only exception.', ['inputs', 'configurations'],
  'all data values at the stated lengths, at the level of compiler IR and of the x86-64 assembly',
  'Functional tests do not observe addresses or branches at all.',
  ['lib/high', 'lib/low'], [('bitwise, branch-free code', L + 'KeccakP-1600')], [])
p('C24', 'Standalone compact C implementations equal FIPS 202',
  'The three standalone compact C implementations give the FIPS 202 result for every message, output length, rate and suffix '
  'they accept.', ['inputs'], 'all data; lengths over the stated grid; all six FIPS 202 functions and the generic Keccak function',
  'The genKAT run compares a few hundred fixed messages.',
  ['Standalone/CompactFIPS202/C'], [('compact sponge', 'Standalone/CompactFIPS202/C/Keccak-readable-and-compact.c')], [])
p('C25', 'Standalone Python implementations equal FIPS 202',
  'The standalone Python implementation gives the FIPS 202 result for every message, output length, rate and suffix it accepts.',
  ['inputs'], 'all data; lengths over the stated grid', 'The baseline only parses these files; they are never run.',
  ['Standalone/CompactFIPS202/Python'], [('KeccakF1600onLanes', 'Standalone/CompactFIPS202/Python/CompactFIPS202.py')], [])
p('C26', 'Standalone Rust KangarooTwelve equals RFC 9861',
  'The standalone Rust implementation gives the KT128 result for every message, customization string and output length.',
  ['inputs'], 'all data; lengths over the stated grid', 'Its tests use fixed patterns.',
  ['Standalone/KangarooTwelve/Rust/k12.rs'], [('fn kangaroo_twelve', 'Standalone/KangarooTwelve/Rust/k12.rs')], [])
p('C27', 'Base64 output encoding is exact and bounded',
  'The base64 encoder used by the command-line tool maps every byte string to its RFC 4648 encoding, with the right padding, '
  'terminator and length, and writes only within the output size it documents.', ['inputs'],
  'all byte strings up to the stated length', 'No test covers it.',
  ['util/KeccakSum/base64.c'], [('base64encode', 'util/KeccakSum/base64.c')], [])
p('C28', 'Outputs do not depend on the target the library is built for',
  'For every public function and every input, the portable 64-bit, 32-bit, SSSE3, AVX2 and AVX-512 builds of the library '
  'return the same outputs, although they select different low-level code and different parallel paths.',
  ['inputs', 'configurations'], 'all data at the stated lengths, all x86-64 targets',
  'Each target is tested separately against checksums of fixed data.',
  ['lib/HighLevel.build', 'lib/LowLevel.build', 'Makefile.build'], [('target composition', 'Makefile.build')], [])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
