#!/usr/bin/env python3
"""The properties, their bounds and what lies outside them. `python3 props.py` writes properties.jsonl and MANIFEST.json;
run.py copies `bounds` into the evidence."""
import json, os
I = 'include/cthash/'
SYM = 'symbolic execution of the LLVM IR of the real headers; obligations decided by term normalisation and z3'
P = {}
def prop(id, title, statement, text, why, files, mech, bounds, outside, over=('inputs',), technique=SYM, state=(), observe=()):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                 anchors=dict(files=[f if '/' in f and not f.startswith(('sha', 'enc', 'int')) else I + f for f in files], state=[dict(name=n, meaning=m, where=I + w) for n, m, w in state],
                              mechanism=[dict(name=n, where=w if w.startswith('/') or w == 'checksum.cpp' else I + w) for n, w in mech], observe_at=list(observe)),
                 bounds=bounds, outside=outside, technique=technique)

prop('C01', 'SHA-2 digests are those of FIPS 180-4',
     'For every message, the digest a SHA-224, SHA-256, SHA-384, SHA-512, SHA-512/224 or SHA-512/256 hasher returns for it is the one FIPS 180-4 defines.',
     'every message of every length', 'the tests compare a few dozen fixed messages; a wrong padding at one length or a rotation that only matters for some words passes them',
     ['hasher.hpp', 'sha2/common.hpp', 'sha2/sha224.hpp', 'sha2/sha256.hpp', 'sha2/sha384.hpp', 'sha2/sha512.hpp', 'sha2/sha512/t.hpp'],
     [('message schedule, rounds', 'sha2/common.hpp'), ('block buffering, padding, length field', 'hasher.hpp')],
     'every byte of every message of every length 0..260 (SHA-256), 0..140 (SHA-224), 0..400 (SHA-512), 0..270 (SHA-384), 0..260 (SHA-512/224 and /256) bytes; thorough: SHA-256 and SHA-512 up to 1000 bytes',
     'longer messages are covered by C02 and C03 (inductive in the number of earlier blocks), not here', observe=['final()'])
prop('C02', 'SHA-2: how a message is cut into updates does not matter',
     'A SHA-2 hasher that receives a message through any sequence of updates, of any sizes including zero, returns the digest of the concatenation.',
     'every message, every way of cutting it into pieces, any number of pieces', 'the tests use a handful of splits; the buffering has a separate case for every combination of fill level and piece size',
     ['hasher.hpp', 'sha2/common.hpp'], [('update_to_buffer_and_process and friends', 'hasher.hpp')],
     'one update of m bytes on any reachable hasher state: arbitrary chaining value, every fill level 0..block-1, arbitrary number of earlier blocks (total below 2^61 bytes), m in {0, 1, and around the first and second block boundary}; all six SHA-2 hashers; by induction any number of such updates. Plus three updates of whole messages with sizes from a boundary-rich grid. Thorough: SHA-256 and SHA-512 with every m from 0 to two blocks and one byte',
     'single updates of more than two blocks and one byte; the inductive entries apply while the hasher keeps (chaining value, buffered bytes, length) - otherwise they are reported as reduced coverage and the whole-message entries decide alone',
     over=('inputs', 'histories'), state=[('hash', 'chaining value', 'hasher.hpp'), ('block/block_used', 'bytes not yet compressed', 'hasher.hpp'), ('total_length', 'bytes seen', 'hasher.hpp')], observe=['update()', 'final()'])
prop('C03', 'SHA-2 padding and length encoding hold for any total length',
     'Finishing a SHA-2 hasher gives the FIPS 180-4 digest however long the input so far was, not only for inputs short enough to be tested.',
     'every total length below 2^61 bytes, every chaining value, every residue', 'no test can feed gigabytes; a length counter truncated to 32 bits or a carry lost in the length field shows only there',
     ['hasher.hpp', 'sha2/common.hpp'], [('finalize_buffer / length field', 'hasher.hpp')],
     'final() from any reachable state of all six hashers: arbitrary chaining value, every fill level, arbitrary buffered bytes, arbitrary number of earlier blocks (total below 2^61 bytes)',
     'totals of 2^61 bytes and more (2^64 bits), where SHA-512 ignores the upper half of its length field', over=('inputs', 'histories'))
prop('C04', 'SHA-3 and SHAKE digests are those of FIPS 202',
     'For every message, the digest a SHA3-224, -256, -384, -512 hasher returns, and the output of SHAKE128 and SHAKE256, is the one FIPS 202 defines.',
     'every message of every length', 'tests compare a few dozen fixed messages; padding has a separate case for each fill level of the rate',
     ['sha3/common.hpp', 'sha3/keccak.hpp', 'sha3/sha3-224.hpp', 'sha3/sha3-256.hpp', 'sha3/sha3-384.hpp', 'sha3/sha3-512.hpp', 'sha3/shake128.hpp', 'sha3/shake256.hpp'],
     [('absorbing, padding', 'sha3/common.hpp'), ('keccak_f', 'sha3/keccak.hpp')],
     'every byte of every message of every length 0..150 (SHA3-224), 0..280 (SHA3-256), 0..215 (SHA3-384), 0..230 (SHA3-512), 0..172 (SHAKE128), 0..275 (SHAKE256); thorough: up to 1000 (SHA3-256) and 700 bytes',
     'longer messages are covered by C06 from arbitrary sponge states')
prop('C05', 'The Keccak-f[1600] permutation is the one FIPS 202 defines',
     'Applied to any 1600-bit state, the permutation gives the state FIPS 202 defines: all 24 rounds, every rotation, every round constant.',
     'every 1600-bit state', 'the tests check the zero state; there are 2^1600 states',
     ['sha3/keccak.hpp'], [('theta, rho, pi, chi, iota', 'sha3/keccak.hpp')],
     'every state: 25 symbolic 64-bit lanes, all 24 rounds', 'nothing')
prop('C06', 'SHA-3 and SHAKE: how a message is cut into updates does not matter',
     'A SHA-3 or SHAKE hasher that receives a message through any sequence of updates, of any sizes including zero, behaves as if it had received the concatenation at once.',
     'every message, every way of cutting it, any number of pieces', 'absorbing has byte-wise, lane-wise and block-wise paths chosen by position and size; tests sample a few combinations',
     ['sha3/common.hpp'], [('xor_overwrite / update at any position', 'sha3/common.hpp')],
     'one update on an arbitrary 1600-bit sponge state at every position 0..rate-1 with sizes around the block boundaries; final() from an arbitrary state at every position; three updates of whole messages with boundary-rich sizes; all six hashers. Thorough: SHA3-512, SHA3-256 and SHAKE128 with every size 0..2 blocks + 1, and larger grids',
     'single updates longer than two blocks and one byte; the inductive entries need the sponge to be kept as state and position', over=('inputs', 'histories'))
prop('C07', 'SHAKE output of any length is a prefix of one stream',
     'SHAKE128 and SHAKE256 return the first bytes of the FIPS 202 output stream for every requested length, so a shorter output is a prefix of every longer one.',
     'every message, every output length', 'tests use a few output lengths on a few messages; squeezing past the rate is a separate path',
     ['sha3/common.hpp', 'sha3/shake128.hpp', 'sha3/shake256.hpp'], [('squeeze', 'sha3/common.hpp')],
     'every output length 0..345 bytes (SHAKE128) and 0..417 bytes (SHAKE256) through a span, from an arbitrary sponge state; 14 compile-time lengths final<N>() over messages of 11 lengths; prefix relation of pairs of lengths',
     'outputs beyond three blocks; lengths in bits that are not multiples of 8 (the API rejects them)')
prop('C08', 'XXH32 and XXH64 follow the xxHash specification for any seed',
     'For every input and every seed (and for the default seed) xxhash32 and xxhash64 return the value the xxHash specification defines.',
     'every input, every seed', 'tests sample fixed strings with few seeds; tails of each residue take different paths',
     ['xxhash.hpp'], [('accumulate, avalanche, tail', 'xxhash.hpp')],
     'every byte and every seed, every length 0..100 (XXH32), 0..140 (XXH64); thorough: up to 1100 bytes', 'longer inputs are covered inductively by C09 and C10')
prop('C09', 'xxhash streaming equals one-shot; final() does not disturb the hasher',
     'Feeding an input in any pieces gives the same hash as feeding it at once, and asking for the hash in between neither changes the hasher nor later results.',
     'every input, every cut into pieces, every point at which the hash is asked for', 'tests use a few splits; buffering depends on fill level and piece size',
     ['xxhash.hpp'], [('update, internal buffer', 'xxhash.hpp')],
     'one update on any reachable state (arbitrary lanes, every fill level or a boundary-rich selection, arbitrary number of earlier stripes) with every size up to two stripes and one byte; three updates with final() in between; any seed',
     'single updates of more than two stripes and one byte other than those of C10', over=('inputs', 'histories'))
prop('C10', 'xxhash is right for totals and pieces of any size',
     'xxhash32 and xxhash64 count every byte they are given, for single updates larger than the internal buffer by any factor and for totals beyond 2^32 bytes.',
     'every total length, every update size', 'no test feeds more than 4 GiB, and the existing ones stay below 256 bytes per update',
     ['xxhash.hpp'], [('total length, short-input path', 'xxhash.hpp')],
     'final() from any reachable state with any total below 2^62 bytes; updates of about 256 bytes and of several stripes from arbitrary states; one-shot inputs of 250..262 bytes',
     'single updates longer than those', over=('inputs', 'histories'))
prop('C11', 'Hashing at compile time gives what hashing at run time gives',
     'Every hasher gives, during constant evaluation, the digest it gives at run time for the same input, in every form the input can take.',
     'every input and form', 'compile-time results are tested for a few literals; constant evaluation takes branches of its own',
     ['internal/bit.hpp', 'internal/convert.hpp', 'hasher.hpp', 'sha3/common.hpp', 'xxhash.hpp'], [('if consteval / is_constant_evaluated branches', 'internal/convert.hpp'), ('same', 'sha3/common.hpp')],
     'all hashers, inputs of every listed form and length of C12, with headers in which every constant-evaluation branch is made the one that runs; compared with the same reference as the run-time build',
     'constant evaluation itself (the compiler) and code that is not selected by if consteval or std::is_constant_evaluated')
prop('C12', 'The type an input is given in does not matter; literals end before the NUL',
     'Bytes given as spans, vectors, arrays, string views, strings, character arrays or ranges of any byte-like type give the same digest; a string literal contributes its characters including embedded NULs but not its terminator.',
     'every input, every input type, every combination of two', 'each form is an overload of its own; tests cover few of them and mostly with ASCII',
     ['hasher.hpp', 'sha3/common.hpp', 'xxhash.hpp', 'internal/concepts.hpp'], [('update overloads', 'hasher.hpp'), ('update overloads', 'sha3/common.hpp'), ('update overloads', 'xxhash.hpp')],
     'all 14 hashers; seven families of input types (std::byte, char, unsigned char, signed char, char8_t; span, array, vector, string, string_view, literal) over arbitrary bytes at representative lengths; two pieces of different type with the second at 11 positions',
     'inputs longer than the listed lengths, for which the form no longer matters after conversion to bytes')
prop('C13', 'Hexadecimal text and hash values convert back and forth exactly',
     'Every text of 2N hexadecimal digits, in either case and any character type, gives the N-byte value it denotes, and printing any value gives 2N lower-case digits which read back as that value.',
     'every value, every text', 'tests use a few literals', ['value.hpp', 'fixed-string.hpp', 'internal/hexdec.hpp'], [('hexdec_to_value, literals', 'internal/hexdec.hpp'), ('hash_value from text', 'value.hpp')],
     'all texts and all values of 1, 2, 4, 8, 20, 28, 32, 48, 64 bytes; five character types; tagged, xxhash, SHA-3 and SHAKE values',
     'texts with characters that are not hexadecimal digits')
prop('C14', 'Hash values are ordered lexicographically by their bytes',
     'Two values compare as their bytes compare lexicographically as unsigned numbers: equality exactly when all bytes agree, and the order is total and transitive.',
     'every pair and triple of values', 'tests compare a few pairs; signed comparison or a wrong end byte passes them', ['value.hpp'], [('operator<=> and ==', 'value.hpp')],
     'every pair of values of 1, 2, 4, 8, 20, 28, 32, 48, 64 bytes, tagged, xxhash, SHA-3 and SHAKE values; every triple of 3- and 8-byte values', 'nothing for these types')
prop('C15', 'SHAKE values of different length compare on their common prefix',
     'Comparing two SHAKE values of different lengths compares the bytes they have in common, so an output equals every longer output of the same message.',
     'every pair of values of each pair of lengths', 'tests compare values of a few messages', ['sha3/shake128.hpp', 'sha3/shake256.hpp', 'value.hpp'], [('comparison operators of variable-length values', 'sha3/shake128.hpp')],
     'every pair of values for seven pairs of lengths, both SHAKE128 and SHAKE256', 'other pairs of lengths')
prop('C16', 'Encodings produce the RFC 4648 text',
     'Base64, base64url, base32, z-base-32, base16, base8, base4 and base2 views yield, for every input, the digits of the encoding in order with the padding the encoding calls for, whatever range the bytes are in.',
     'every input, every encoding, every container, either iterator', 'tests encode a few strings; the bit buffer has a separate case for each residue',
     ['encoding/base.hpp', 'encoding/bit-buffer.hpp', 'encoding/chunk-of-bits.hpp', 'encoding/encodings.hpp'], [('chunk_of_bits_view', 'encoding/chunk-of-bits.hpp'), ('encode_to_view', 'encoding/base.hpp')],
     'all eleven encodings, every input of 0..20 bytes (base8: 14, base4: 12, base2: 8), char and char32_t output, nine kinds of source range, pre- and post-increment; thorough: every input of up to 40 bytes',
     'longer inputs (the encoder state repeats with the period of the encoding, at most 15 bytes)')
prop('C17', 'Encoded text determines the bytes, and size() is exact',
     'Distinct inputs have distinct encodings, the input can be recovered from the text by the alphabet alone, and size() is the number of characters produced.',
     'every input of every length', 'tests encode only', ['encoding/base.hpp', 'encoding/chunk-of-bits.hpp'], [('size(), padding', 'encoding/base.hpp')],
     'all eleven encodings, every input of up to 6 bytes (decoding, injectivity), to_string and iterators up to 11 bytes; thorough: decoding up to 20 bytes',
     'longer inputs')
prop('C18', 'Encoding names select exactly the encoding they name',
     'A format specification selects an encoding exactly when it is one of the documented names followed by the closing brace or the end; any other text is rejected, in every character type.',
     'every specification text', 'tests try the valid names and a few wrong ones', ['encoding/encodings.hpp', 'encoding/base.hpp', 'value.hpp'], [('select_encoding, dynamic encoding', 'encoding/encodings.hpp')],
     'every text of 0..20 characters of any value (char, char8_t, char16_t, char32_t, wchar_t), through the selection function and the formatter parse function; every known name in every character type; thorough: 21..38 characters',
     'longer texts')
prop('C19', 'All ways of writing a hash value down agree',
     'Stream output, print_into, std::format with each encoding name, to_string, to_fixed_string and the encoding views all give the same text for the same value and encoding, hexadecimal by default or what the tag asks for, in narrow and wide characters.',
     'every value, every encoding, every way', 'tests print a few values', ['value.hpp', 'encoding/base.hpp', 'fixed-string.hpp'], [('print_into, operator<<, formatters', 'value.hpp'), ('encode_to_view output', 'encoding/base.hpp')],
     'every value of plain, SHA-2, SHA-3, SHAKE, xxhash and own-tag types of 3 to 64 bytes; eleven encodings; all 17 names; char, wchar_t, char8_t; the real libstdc++ format and ostream templates are executed',
     'ostream construction (locale), streams in a failed state, width and fill')
prop('C20', 'No undefined behaviour, no bad access, no failed assertion',
     'No use of the documented API within its stated preconditions reads or writes outside its objects, reads uninitialised memory, overflows signed arithmetic, shifts by too much, dereferences null or fails a library assertion.',
     'every input within bounds, every path', 'sanitizer runs see only the paths and values tests happen to use', ['hasher.hpp', 'sha3/common.hpp', 'xxhash.hpp', 'encoding/bit-buffer.hpp', 'encoding/chunk-of-bits.hpp', 'value.hpp', 'internal/convert.hpp'],
     [('all buffers and conversions', 'hasher.hpp'), ('bit buffer', 'encoding/bit-buffer.hpp')],
     'the entries of C01-C19, C24 and C25 listed in checks.py compiled with UBSan traps and libstdc++ assertions; each access of every path is checked against the bounds, lifetime and initialisation of its object, each trap for reachability',
     'what the individual entries leave out; strict aliasing', over=('inputs', 'histories'))
prop('C21', 'A copied or moved hasher is independent of the original',
     'After copying or moving a hasher, what happens to one of the two never affects the other, and each gives the digest of exactly what it received.',
     'every history before and after the copy', 'tests hardly copy hashers', ['hasher.hpp', 'sha3/common.hpp', 'xxhash.hpp'], [('value semantics of hashers', 'hasher.hpp')],
     'copy and move after every listed prefix (8 fill levels), then different continuations of boundary-rich sizes, for SHA-2, SHA-3, SHAKE and xxhash', 'other lengths', over=('inputs', 'histories'))
prop('C22', 'prefix, suffix and element access show exactly the bytes of the value',
     'prefix<N> and suffix<N> are the first and last N bytes, iteration and indexing visit the bytes in order, a new value is all zero, and copies are equal.',
     'every value, every N', 'tests use single values', ['value.hpp'], [('prefix, suffix, constructors', 'value.hpp')],
     'every N from 1 to the size, values of 1, 2, 4, 8, 20, 28, 32, 48, 64 bytes and tagged', 'nothing for these sizes')
prop('C23', 'SHA-512/t is right for every t',
     'For every t that is a multiple of 8 below 512, SHA-512/t uses the initial value FIPS 180-4 derives for it and truncates to t bits.',
     'every t, every message', 'tests cover 224 and 256', ['sha2/sha512/t.hpp'], [('initial value generation', 'sha2/sha512/t.hpp')],
     'every t = 8..504, messages of three lengths with arbitrary bytes', 'longer messages (C02, C03 apply to the same code); t=384, which FIPS excludes, is treated like the others')
prop('C24', 'Regrouping bits loses and invents none',
     'Cutting a range of integers into k-bit chunks gives the bits of the input in order, zero-filled at the end and padded as announced, for every chunk width and every input integer width.',
     'every input, every width', 'tests use widths 5, 6 and a few bytes', ['encoding/chunk-of-bits.hpp', 'encoding/bit-buffer.hpp'], [('bit_buffer', 'encoding/bit-buffer.hpp')],
     'chunk widths 1..8 and 10..56 over bytes, 1..16 over 16- and 32-bit integers, signed and unsigned, with and without padding, every input of up to 9 bytes / 5 halfwords / 4 words', 'other widths')
prop('C25', 'Numbers convert to and from bytes in the stated order',
     'Reading a number from bytes and writing it to bytes in big- or little-endian order is exact for every value, and byte-wise copying and counting treats any byte-like type alike.',
     'every value', 'tests use single values', ['internal/convert.hpp', 'internal/bit.hpp', 'internal/algorithm.hpp'], [('cast_from_bytes, unwrap_bigendian_number', 'internal/convert.hpp')],
     'every value of 16-, 32- and 64-bit numbers, both byte orders; copies of every length 0..40; run-time and constant-evaluation branches', 'big-endian hosts')
prop('C26', 'final(span) writes exactly the digest',
     'final into a span writes the digest final() would return, every byte of it, and nothing before or after it.',
     'every input, every surrounding', 'tests check the returned digest only', ['hasher.hpp', 'sha3/common.hpp', 'xxhash.hpp'], [('final overloads', 'hasher.hpp')],
     'all SHA-2, SHA-3 and xxhash hashers, messages of up to 13 boundary lengths with arbitrary bytes, 16 arbitrary bytes on each side', 'other message lengths')
prop('C27', 'size() reports the number of bytes given so far',
     'size() of a SHA-2 hasher is the sum of the sizes of all updates, for any total.', 'every history', 'tests do not check it for large totals', ['hasher.hpp'], [('total_length', 'hasher.hpp')],
     'one update on an arbitrary reachable state of SHA-256, SHA-384 and SHA-512, any total below 2^61 bytes', 'larger totals', over=('inputs', 'histories'))
prop('C28', 'The single header is the same library',
     'include/cthash-single-header.hpp compiles on its own and gives the digests, values and encodings the specification gives, like the modular headers.',
     'every input', 'no test includes the single header', ['include/cthash-single-header.hpp'], [('amalgamated copy', '/include/cthash-single-header.hpp')],
     'the listed entries of C01, C02, C04, C06-C10, C13-C18, C19, C22 compiled against the single header alone', 'stream output and formatting of views, which the amalgamation lacks')
NA = {}

def main():
    root = os.path.dirname(os.path.abspath(__file__))
    from checks import CHECKS
    with open(os.path.join(root, 'properties.jsonl'), 'w') as o:
        for p in P.values():
            d = {k: v for k, v in p.items() if k not in ('bounds', 'outside', 'technique')}
            assert len(d['title']) <= 80, d['title']
            o.write(json.dumps(d) + '\n')
        for k, v in NA.items(): o.write(json.dumps(v[0]) + '\n')
    m = dict(version=1, setup_cmd='bash engine/build.sh', checks=[], not_applicable=[dict(property=k, reason=v[1]) for k, v in NA.items()])
    for k, p in P.items():
        if k not in CHECKS: continue
        m['checks'].append(dict(property=k, quick_cmd='python3 run.py %s' % k, thorough_cmd='python3 run.py %s --tier thorough' % k, technique=p['technique'], level='model_checking',
                                level_note='bounds: %s. Outside: %s.' % (p['bounds'], p['outside'])))
    json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__': main()
