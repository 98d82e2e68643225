"""Which harness entries decide which property, in which build variant, with what bounds."""
def job(src, entry, shards=1, cost=1, **kw): return dict(src=src, entry=entry, shards=shards, cost=cost, **kw)
S = 'sha2.cpp'
K = 'sha3.cpp'
X = 'xxh.cpp'
def both(*names): return ['xxh%d_%s' % (b, n) for n in names for b in (32, 64)]
CHECKS = {
'C01': dict(
    jobs=[job(S, 'sha256_digest', 4, 8), job(S, 'sha224_digest', 2, 4), job(S, 'sha512_digest', 8, 20), job(S, 'sha384_digest', 4, 10), job(S, 'sha512_224_digest', 4, 10), job(S, 'sha512_256_digest', 4, 10),
          job(S, 'sha256_digest_long', 8, 40, tier='thorough'), job(S, 'sha512_digest_long', 8, 40, tier='thorough')]),
'C02': dict(
    jobs=[job(S, e, 4, c) for e, c in (('sha256_step', 10), ('sha224_step', 10), ('sha512_step', 30), ('sha384_step', 30), ('sha512_224_step', 30), ('sha512_256_step', 30), ('sha256_chunks', 8), ('sha512_chunks', 10))]
         + [job(S, 'sha256_step_all', 8, 60, tier='thorough'), job(S, 'sha512_step_all', 16, 300, tier='thorough'), job(S, 'sha224_chunks', 4, 8, tier='thorough'), job(S, 'sha384_chunks', 4, 8, tier='thorough')]),
'C03': dict(jobs=[job(S, e, 2, 4) for e in ('sha256_finish', 'sha224_finish', 'sha512_finish', 'sha384_finish', 'sha512_224_finish', 'sha512_256_finish')]),
'C21': dict(jobs=[job(S, e, 2, 4) for e in ('sha256_copies', 'sha512_copies', 'sha512_224_copies')] + [job(K, e, 1, 8) for e in ('sha3_256_copies', 'sha3_512_copies', 'shake128_copies')] + [job(X, e, 1, 8) for e in both('copies')]),
'C26': dict(jobs=[job(S, e, 1, 4) for e in ('sha224_final_span', 'sha256_final_span', 'sha384_final_span', 'sha512_final_span', 'sha512_224_final_span', 'sha512_256_final_span')] + [job(K, 'sha3_%d_final_span' % b, 1, 8) for b in (224, 256, 384, 512)] + [job(X, e, 1, 8) for e in both('final_span')]),
'C27': dict(jobs=[job(S, e, 2, 4) for e in ('sha256_size', 'sha512_size', 'sha384_size')]),
'C04': dict(jobs=[job(K, e, 4, c) for e, c in (('sha3_224_digest', 5), ('sha3_256_digest', 8), ('sha3_384_digest', 8), ('sha3_512_digest', 10), ('shake128_msg', 5), ('shake256_msg', 8))]),
'C05': dict(jobs=[job(K, 'keccak_permutation')]),
'C06': dict(jobs=[job(K, e + '_step', 4, 10) for e in ('sha3_224', 'sha3_256', 'sha3_384', 'sha3_512', 'shake128', 'shake256')] + [job(K, e + '_finish', 2, 5) for e in ('sha3_224', 'sha3_256', 'sha3_384', 'sha3_512', 'shake128', 'shake256')] + [job(K, e + '_chunks', 2, 5) for e in ('sha3_224', 'sha3_256', 'sha3_384', 'sha3_512', 'shake128', 'shake256')]),
'C07': dict(jobs=[job(K, e, 4, 8) for e in ('shake128_squeeze', 'shake256_squeeze', 'shake128_lengths', 'shake256_lengths', 'shake128_prefix', 'shake256_prefix')]),
'C08': dict(jobs=[job(X, e, 2, 4) for e in both('digest', 'seed')] + [job(X, e, 8, 40, tier='thorough') for e in both('digest_long')]),
'C09': dict(jobs=[job(X, e, 2, 4) for e in both('chunks', 'step', 'step_more')]),
'C10': dict(jobs=[job(X, e, 1, 4) for e in both('finish', 'step_large', 'digest_256')]),
}
E = 'encode.cpp'
ENCS = 'base64 base64_no_padding base64url base32 base32_no_padding z_base32 base16 base16_uppercase base8 base4 base2'.split()
CHECKS['C16'] = dict(jobs=[job(E, 'enc_%s_%s' % (e, k), 1, 4) for e in ENCS for k in ('lengths', 'wide', 'containers')])
CHECKS['C17'] = dict(jobs=[job(E, 'enc_%s_%s' % (e, k), 1, 4) for e in ENCS for k in ('decode', 'strings', 'injective')])
CHECKS['C24'] = dict(jobs=[job(E, 'chunk_' + k, 1, 4) for k in ('u8', 'u8_pad', 'wide_out', 'wide_out_pad', 'i8', 'u16', 'u16_pad', 'i16', 'u32', 'i32')])
V = 'value.cpp'
CHECKS['C13'] = dict(jobs=[job(V, 'hex_%s_%s' % (k, n), 1, 3) for n in (1, 2, 4, 8, 20, 28, 32, 48, 64, 'char8_t', 'char16_t', 'char32_t', 'wchar_t', 'tagged') for k in ('parse', 'round')] + [job(V, 'hex_parse_xxh64'), job(V, 'hex_round_sha3'), job(V, 'hex_parse_shake'), job(V, 'hex_round_shake')])
CHECKS['C14'] = dict(jobs=[job(V, 'order_%s' % n, 1, 3) for n in (1, 2, 4, 8, 20, 28, 32, 48, 64, 'tagged', 'xxh64', 'sha3', 'shake')] + [job(V, 'transitive_3'), job(V, 'transitive_8')])
CHECKS['C15'] = dict(jobs=[job(V, 'shake128_order', 4), job(V, 'shake256_order', 4)])
CHECKS['C22'] = dict(jobs=[job(V, '%s_%s' % (k, n), 1, 3) for n in (1, 2, 4, 8, 20, 28, 32, 48, 64, 'tagged') for k in ('affix', 'basics')])
T = 'types.cpp'
HS = 'sha224 sha256 sha384 sha512 sha512_224 sha512_256 sha3_224 sha3_256 sha3_384 sha3_512 shake128 shake256'.split()
CHECKS['C12'] = dict(jobs=[job(T, 'forms_' + h, 2, 4) for h in HS + ['xxh32', 'xxh64']] + [job(T, 'mixed_' + h, 2, 4) for h in HS])
CHECKS['C11'] = dict(jobs=[job(T, 'forms_' + h, 2, 4, variant='forced') for h in HS + ['xxh32', 'xxh64']] + [job(T, 'mixed_' + h, 2, 4, variant='forced') for h in HS])
CHECKS['C23'] = dict(jobs=[job('sha512t.cpp', 'sha512t_all', 8, 4)])
CHECKS['C25'] = dict(jobs=[job('numbers.cpp', e, 1, 4, variant=v) for e in ('numbers_read', 'numbers_write', 'copy_byte', 'copy_char', 'copy_int8') for v in ('run', 'forced')])

L = 'select.cpp'
CHECKS['C18'] = dict(jobs=[job(L, 'sel_' + k, 4, 8) for k in ('char', 'char8', 'char16', 'char32', 'wchar', 'parse', 'parse_wide', 'name')] + [job(L, 'sel_names_' + k) for k in ('char', 'char8', 'char16', 'char32', 'wchar')]
    + [job(L, 'sel_' + k, 8, 30, tier='thorough') for k in ('char_long', 'wchar_long')])

P = 'print.cpp'
CHECKS['C19'] = dict(jobs=[job(P, 'print_' + k, 1, 4) for k in 'hash4 hash5_wide hash3_char8 sha256 sha512 sha3_224 shake xxh64 own_tag'.split()] + [job(P, 'default_' + k) for k in 'hash4 hash5_wide sha256 sha1_wide shake xxh32 own_tag own_tag_wide'.split()]
    + [job(P, 'format_' + k, 1, 4) for k in 'hash4 sha256 xxh64 shake own_tag mixed'.split()])

CHECKS['C20'] = dict(jobs=
    [job(S, e, 4, c, variant='ub') for e, c in (('sha256_digest', 8), ('sha512_digest', 20), ('sha256_chunks', 8), ('sha512_chunks', 10), ('sha256_finish', 4), ('sha512_finish', 4), ('sha512_224_final_span', 1), ('sha256_copies', 1))]
    + [job(K, e, 4, 8, variant='ub') for e in ('sha3_224_digest', 'sha3_512_digest', 'shake128_msg', 'shake256_squeeze', 'sha3_256_chunks', 'shake128_chunks', 'sha3_256_finish')]
    + [job(X, e, 2, 4, variant='ub') for e in both('digest', 'chunks', 'finish', 'step_large', 'digest_256')]
    + [job(E, 'enc_%s_%s' % (e, k), 1, 2, variant='ub') for e in ENCS for k in ('lengths', 'decode', 'strings')]
    + [job(E, 'chunk_' + k, 1, 2, variant='ub') for k in ('u8', 'u8_pad', 'wide_out', 'i8', 'u16', 'i16', 'u32', 'i32')]
    + [job(V, 'hex_%s_%s' % (k, n), 1, 2, variant='ub') for n in (1, 8, 32, 'char16_t', 'wchar_t', 'tagged') for k in ('parse', 'round')] + [job(V, 'affix_32', variant='ub'), job(V, 'basics_8', variant='ub'), job(V, 'order_8', variant='ub'), job(V, 'shake128_order', variant='ub')]
    + [job(T, 'forms_' + h, 2, 4, variant='ub') for h in ('sha256', 'sha512', 'sha3_256', 'shake128', 'xxh32', 'xxh64')]
    + [job('numbers.cpp', e, 1, 4, variant='ub') for e in ('numbers_read', 'numbers_write', 'copy_byte', 'copy_char', 'copy_int8')]
    + [job(L, 'sel_' + k, 2, 4, variant='ub') for k in ('char', 'wchar', 'parse')]
    + [job(P, e, 1, 4, variant='ub') for e in ('print_hash4', 'print_hash5_wide', 'default_sha256', 'default_own_tag', 'format_hash4', 'format_mixed')])
CHECKS['C28'] = dict(jobs=
    [job(S, e, 4, c, variant='single') for e, c in (('sha256_digest', 8), ('sha224_digest', 4), ('sha512_digest', 20), ('sha384_digest', 10), ('sha512_224_digest', 10), ('sha512_256_digest', 10), ('sha256_chunks', 8), ('sha512_chunks', 10))]
    + [job(K, e, 4, 8, variant='single') for e in ('sha3_224_digest', 'sha3_256_digest', 'sha3_384_digest', 'sha3_512_digest', 'shake128_msg', 'shake256_squeeze', 'sha3_256_chunks', 'shake128_chunks')]
    + [job(X, e, 2, 4, variant='single') for e in both('digest', 'chunks', 'finish', 'step_large', 'digest_256')]
    + [job(E, 'enc_%s_%s' % (e, k), 1, 2, variant='single') for e in ENCS for k in ('lengths', 'decode')]
    + [job(V, 'hex_%s_%s' % (k, n), 1, 2, variant='single') for n in (1, 8, 32, 'char16_t', 'tagged') for k in ('parse', 'round')] + [job(V, 'affix_32', variant='single'), job(V, 'order_8', variant='single'), job(V, 'shake128_order', variant='single')]
    + [job(L, 'sel_' + k, 2, 4, variant='single') for k in ('char', 'parse')]
    + [job(P, e, 1, 4, variant='single') for e in ('print_hash4', 'default_sha256', 'default_own_tag', 'format_hash4')])
