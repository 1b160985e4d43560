"""What each property's check runs: harness entries, parameters, bounds."""
A = (1 << 64) - 1  # "all" for a choice parameter
FILES = {1: 'p_value.rs', 2: 'p_tx.rs', 3: 'p_storage.rs', 4: 'p_hint.rs', 5: 'p_cards.rs', 6: 'p_mem.rs', 7: 'p_meta.rs', 8: 'p_total.rs', 9: 'p_names.rs', 10: 'p_why.rs', 11: 'p_long.rs', 12: 'p_ids.rs'}
ASSUMPTIONS = [
    'the compiler front end: the LLVM IR that rustc emits for the whole program (opt-level 1, fat LTO, overflow checks on) means what the source means',
    'symex executes that IR faithfully (every run replays a sample of the explored paths natively and compares how they end, how many assertions they pass and what they observe)',
    'the allocator never fails; memory handed out is disjoint from everything else',
    'Z3 answers sat/unsat correctly; a condition on a single byte is also decided by trying the 256 values of that byte',
]
OUTSIDE = ('inputs longer, types deeper or wider than the bounds of each run; vectors and arrays of zero-sized elements with huge lengths; '
           'recursion deep enough to exhaust the stack; allocation failure')


def job(entry, *params, thorough=None, splits=1, covers=(1,), bound='', **kw):
    d = dict(entry=entry, params=list(params), splits=splits, covers=list(covers), bound=bound, **kw)
    if thorough is not None:
        d['params_thorough'] = list(thorough)
    return d


PROPS = {
    'P01': dict(
        bounds='each of the 15 primitive types alone; data of every length from 0 to one byte more than the type takes '
               '(16- and 32-byte integers: one short, exact, one more; strings: up to 6 bytes, thorough 8), all byte values; besides, strings of 63, 64, 255, 256, 300, 16384 and 70000 bytes, three of them any',
        jobs=[job('h_prim', A, covers=(1, 2), bound='15 primitives, all bytes', splits=2),
              job('h_str', 5, thorough=[8], covers=(1, 2), bound='string bodies of every length to the bound, every declared length', splits=4),
              *[job('h_long_str', n, covers=(1, 2), bound=f'strings of {n} bytes, three of them any') for n in (63, 64, 255, 256, 300, 16384, 70000)],
              *[job('h_long_text', n, covers=(1, 2), bound=f'strings of {n} bytes of characters of 2 to 4 bytes in all shifts') for n in (300, 5000, 70000)]]),
    'P02': dict(
        bounds='compacts of u8..u128 and five PerThings, bare and through four wrappings, data of every length to two more than the widest form; '
               '26 kinds of types without compact form; find_compact at offsets 0..2',
        jobs=[job('h_compact', A, A, covers=(1, 2), bound='10 numbers x 5 wrappings', splits=4),
              job('h_compact_bad', covers=(1, 2), bound='26 types x wrapped or not x in a vector or not'),
              *[job('h_find_compact', k, n, covers=(1, 2), bound=f'every input of up to {n} bytes from 3 offsets') for k, n in ((0, 7), (1, 7), (2, 8), (3, 12), (4, 19))]]),
    'P03': dict(
        bounds='types nested to depth 2 (thorough 3) over 16 leaves and 13 constructors; data to 5 bytes; sets of up to 4 elements of 15 element kinds; names that mean nothing to the parser are any ASCII texts of 0, 3, 4, 7 characters; besides, sets of 64, 257 and 1100 elements of 7 kinds and of 66000 bytes, 20 and 300 fields, 256 variants, with any first, middle and last byte; lists, trees and six kinds of types in types, 20 and 150 deep',
        jobs=[job('h_deco', 3, 5, thorough=[3, 7], covers=(1, 2), splits=2, bound='one constructor over a leaf, docs and type parameters on everything'),
              job('h_shape', A, 0, 6, thorough=[A, 0, 9], covers=(1, 2), bound='one constructor over a leaf', splits=4),
              job('h_shape', A, 1, 3, thorough=[A, 1, 5], covers=(1, 2), bound='two constructors over a leaf', splits=8),
              job('h_set', A, 3, 0, thorough=[A, 6, 0], covers=(1, 2), bound='arrays', splits=2),
              job('h_set', A, 3, 1, thorough=[A, 6, 1], covers=(1, 2), bound='vectors', splits=2),
              job('h_variant', covers=(1, 2), bound='three variants, any order of indices, data to 4 bytes'),
              *[job('h_name_none', n, covers=(1, 2), bound=f'names that say nothing: any texts of {n} characters') for n in (0, 3, 4, 7)],
              *[job('h_long_set', A, n, k, thorough=[A, 16 * n, k], covers=(1, 2), bound=f'{n} elements of 7 kinds (thorough: {16 * n})') for n in (64, 257, 1100) for k in (0, 1)],
              *[job('h_long_set', 0, n, k, covers=(1, 2), weight=9, bound=f'{n} bytes') for n in (66000,) for k in (0, 1)],
              *[job('h_many_fields', A, n, covers=(1, 2), bound=f'{n} fields') for n in (20, 300)],
              *[job('h_deep', A, n, covers=(1, 2), bound=f'types and values {n} deep') for n in (20, 150)],
              job('h_many_variants', 0, covers=(1, 2), splits=2, bound='256 variants')]),
    'P04': dict(
        bounds='every store and order type including unsupported ones, data to 6 bytes; supported ones with 61..67 and 125..131 bits; orders of any ASCII name to 12 characters; besides, 512, 2048, 16400 and 70000 bits, three bytes of them any',
        jobs=[job('h_deco', 1, 4, covers=(1, 2), bound='docs and type parameters on everything'),
              job('h_bits', A, A, 6, thorough=[A, A, 10], covers=(1, 2), bound='9 stores x 6 orders', splits=4),
              *[job('h_bits_long', s, o, n, thorough=[s, o, n], covers=(1, 2), bound='bits n..n+3') for s in range(4) for o in range(2) for n in (64, 126)],
              job('h_space_order', 5, 8, thorough=[8, 20], covers=(1, 2), bound='up to 5 names before that of the order'),
              job('h_name_order', 12, thorough=[20], covers=(1, 2), bound='orders of any name'),
              *[job('h_long_bits', A, A, n, covers=(1, 2), bound=f'{n} bits, three bytes of them any') for n in (512, 2048, 16400, 70000)]]),
    'P05': dict(
        bounds='types nested to depth 1 (thorough 2); data to 5 bytes, also 22 types by path, bit sequences to 9 bytes, signatures, calls and events; moved behind 1, 2, 3 and 8 and before 3 arbitrary bytes; start positions to 3 past the end; besides, at positions 299, 300, 69999 and 70000',
        jobs=[job('h_locality', A, 0, 6, thorough=[A, 0, 9], covers=(1, 2, 3), bound='leaves'),
              job('h_locality', A, 1, 4, thorough=[A, 1, 6], covers=(1, 2, 3), bound='depth 1', splits=4),
              *[job('h_local_more', k, covers=(1, 2, 3), bound='22 types, bit sequences, signatures, calls, events') for k in range(3)],
              *[job('h_far_more', n, covers=(1, 2), bound=f'22 types, bit sequences, signatures, calls, events at position {n}') for n in (299, 69999)],
              job('h_out_of_range', covers=(1, 2), bound='leaves, start up to 3'),
              job('h_far', 300, 1, 4, thorough=[300, 1, 6], covers=(1, 2), splits=2, bound='at position 300'),
              job('h_far', 70000, 0, 5, thorough=[70000, 1, 3], covers=(1, 2), bound='at position 70000')]),
    'P06': dict(
        bounds='all eras: data of every length to 3 bytes, all values; every mortal era of every period',
        jobs=[job('h_era', covers=(1, 2), bound='data to 3 bytes'), job('h_era_codec', covers=(1, 2), bound='data to 3 bytes'),
              job('h_era_roundtrip', bound='15 periods, all phases')]),
    'P07': dict(
        bounds='22 types by path (16 special, 6 look-alikes), alone, in a vector of two and in a struct field; exact, one byte short, two more; MultiSignature with 3 lengths, 4 type names, wrapped or not; besides, types of 8 shapes and multi-signatures under any ASCII name to 15 (20) characters; besides, arrays and tuples of 20 and 70 of them',
        jobs=[job('h_deco', 0, 4, covers=(1, 2), bound='docs and type parameters on everything'),
              job('h_special', A, A, covers=(1, 2), bound='22 types x 3 placements', splits=2),
              job('h_multisig', A, covers=(1, 2), bound='MultiSignature variants', splits=4),
              *[job('h_name_special', k, 15, thorough=[k, 30], covers=(1, 2), bound='types of any name') for k in range(8)],
              job('h_name_crypto', A, covers=(1, 2), bound='keys and signatures under any path'),
              job('h_name_longer', 0, 5, thorough=[0, 12], covers=(1,), bound='keys under paths of more segments'),
              job('h_name_longer', 1, 9, thorough=[1, 16], covers=(1,), bound='keys under paths of more segments'),
              *[job('h_space_special', k, 6, 5 if k in (0, 1) else 13, thorough=[k, 8, 20], covers=(1, 2), bound='types by their last name, up to 6 names before it') for k in range(12)],
              job('h_name_multisig', 20, thorough=[30], covers=(1, 2), splits=2, bound='multi-signatures with any type name'),
              *[job('h_many_special', A, n, covers=(1, 2), bound=f'sets of {n}') for n in (20, 70)]]),
    'P08': dict(
        bounds='5 outer x 5 inner names, 4 inner shapes, 3 field lists, 3 placements, data to 5 bytes; calls nested in calls, data to 6 bytes (thorough 9); any ASCII name to 13 characters of either enum; besides, 256 pallets and 256 calls in one, 20 and 100 calls each in the next and 100 in a batch',
        jobs=[job('h_deco', 2, 4, covers=(1, 2), bound='docs and type parameters on everything'),
              job('h_pallet', A, covers=(1, 2), bound='shapes of outer and inner enum', splits=8),
              job('h_nested_call', 6, thorough=[9], covers=(1, 2), bound='batch and wrapped calls', splits=2),
              job('h_name_pallet', 13, 100, thorough=[20, 100], covers=(1, 2), bound='any name of the outer enum'),
              job('h_name_pallet', 13, 102, thorough=[20, 102], covers=(1, 2), bound='any name of the outer enum'),
              job('h_name_pallet', 101, 13, thorough=[101, 20], covers=(1, 2), bound='any name of the inner enum'),
              job('h_name_pallet', 103, 13, thorough=[103, 20], covers=(1, 2), bound='any name of the inner enum'),
              job('h_space_pallet', 5, 6, thorough=[8, 13], covers=(1, 2), splits=4, bound='up to 5 names before those of the enums'),
              job('h_name_pallet', 13, 13, covers=(1, 2), splits=4, thorough_only=1, bound='any names of both'),
              *[job('h_deep_call', n, k, covers=(1, 2), bound=f'{n} calls, ' + ('in a batch' if k else 'each in the next')) for n, k in ((20, 0), (100, 0), (100, 1))],
              *[job('h_many_variants', k, covers=(1, 2), splits=2, bound='256 pallets' if k == 1 else '256 calls') for k in (1, 2)]]),
    'P09': dict(
        bounds='calls of 4 shapes including nested calls, 4 extension lists; 7 bytes (thorough 9) plus the genesis hash; calls of up to 5 declared bytes (thorough 7) decoded, longer ones only split; expected genesis hash absent or arbitrary; besides, calls of 58..61, 70, 300 and 16500 bytes, three of them any, declared one too short to one too long',
        jobs=[job('h_tx', 0, 6, 5, thorough=[0, 9, 7], covers=(1, 2, 3, 4, 5, 6), splits=2, bound='spec version and genesis hash in the additional part'),
              job('h_tx', 1, 7, 5, thorough=[1, 9, 7], covers=(1, 2, 3, 4, 5, 6), splits=6, weight=8, bound='three extensions in mixed parts'),
              job('h_tx', 2, 6, 5, thorough=[2, 9, 7], covers=(1, 2, 3, 4, 5, 6), splits=2, bound='extension of variable length'),
              job('h_tx', 3, 6, 6, thorough=[3, 9, 9], covers=(2, 3, 4, 5), bound='no genesis hash'),
              job('h_tx_unmarked', 6, 0, thorough=[9, 0], covers=(1, 2, 3), bound='no length prefix'),
              job('h_tx_unmarked', 2, 1, thorough=[6, 1], covers=(2, 3), splits=4, bound='no length prefix, calls of any length'),
              *[job('h_long_tx', n, covers=(1, 3, 4, 5, 6), bound=f'calls of {n} bytes') for n in (58, 59, 60, 61, 70, 300)],
              job('h_long_tx', 16500, thorough=[33000], covers=(1, 3, 4, 5), weight=8, bound='calls of 16500 bytes')]),
    'P10': dict(
        bounds='lists of up to 3 (thorough 4) out of 11 kinds of extensions, all orders and repetitions, all bytes; versions of every width against every ASCII version string of up to 3 (thorough 5) characters; identifiers of up to 25 characters; besides, lists of 15 and 43 extensions, those that are checked first, in the middle, last or twice',
        jobs=[job('h_ext', 1, A, covers=(2,), bound='one extension'),
              job('h_ext', 2, A, covers=(1, 2), splits=2, bound='two extensions'),
              job('h_ext', 3, A, thorough=[4, A], covers=(1, 2), splits=8, bound='three (four) extensions'),
              *[job('h_ext_version', 3 if k < 4 else 2, k, thorough=[5, k], covers=(1, 2), bound='version against string' + (' (u128: below 65536)' if k == 4 else '')) for k in range(5)],
              job('h_name_ext', 0, 25, thorough=[0, 40], covers=(1, 2), splits=2, bound='any identifier'),
              *[job('h_many_exts', n, covers=(1, 3, 5, 6), splits=2, bound=f'{n + 3} extensions and more') for n in (12, 40)]]),
    'P11': dict(
        bounds='three layouts of address, signature and extra; call type that is or is not a call; 5 extrinsic versions; data of every length to 8 bytes (thorough 11); besides, extrinsics of 70, 300, 16500 and 70000 bytes',
        jobs=[*[job('h_unchecked', 8, k, thorough=[11, k], covers=(1, 2, 3), splits=2, bound='all version bytes, lengths and contents') for k in range(3)],
              job('h_unchecked_rest', covers=(1,), bound='one byte left after a call, signed and unsigned'),
              *[job('h_long_unchecked', n, covers=(1, 3), bound=f'calls of {n} bytes') for n in (70, 300, 16500, 70000)]]),
    'P12': dict(
        bounds='seven hashers alone on 8 key types (to 68 bytes) and in pairs on tuples, 0..4 hashers on 7 key types; keys from one byte short to 4 bytes more, all bytes; plain entries with key lengths 30..34 and values of 16 types to 5 bytes; besides, key parts and values of 70 and 300 (thorough 17000) bytes, keys of 12 and 40 parts',
        assumptions=['blake2_128 and twox_64 (external crate) are replaced by stand-ins with the same interface (harness/standin/hashing)'],
        jobs=[job('h_store_plain', 5, thorough=[8], covers=(1, 2), bound='plain entries'),
              job('h_store_one', A, A, covers=(1, 2), splits=2, bound='one hasher'),
              job('h_store_tuple', A, A, 4, thorough=[A, A, 6], covers=(1, 2), bound='two hashers on a tuple'),
              job('h_store_shape', covers=(1, 2), bound='numbers of hashers against key types'),
              *[job('h_long_store', n, 0, covers=(1, 2), bound=f'key parts and values of {n} bytes') for n in (70, 300)],
              job('h_long_store', 17000, 0, covers=(1, 2), thorough_only=1, bound='key parts and values of 17000 bytes'),
              *[job('h_long_store', n, 1, covers=(1, 2), bound=f'keys of {n} parts') for n in (12, 40)]]),
    'P13': dict(
        bounds='every balance of u8, u16, u32, u64 and u128, every number of decimals (0 to 255), units of 0 and 2 ASCII characters; units of any ASCII text to 12 characters (thorough 20) and of up to 6 characters of 1 to 4 bytes on 5 balances with 7 decimals; u8 and u16 also with the printing of core',
        assumptions=['core prints an integer with its decimal digits (u32, u64 and u128; for u8 and u16 the code of core is executed)'],
        jobs=[*[job('h_balance', k, covers=(1, 2), bound=f'all {n}') for k, n in enumerate(('u8', 'u16', 'u32', 'u64', 'u128'))],
              job('h_balance_unit', 12, A, thorough=[20, A], covers=(1, 2), bound='any unit'),
              *[job('h_balance_small', k, covers=(1, 2), bound=f'all {n}, real printing') for k, n in enumerate(('u8', 'u16'))]]),
    'P14': dict(
        bounds='47 kinds of values alone (numbers of 1, 2 and the most digits under all seven labels, bits to 3, texts and bytes to 2, signed and per-thing numbers at their limits), '
               'and 14 constructors around constructors around 7 values (thorough: one level more), 4 pallets, present and absent names and docs; three accounts with eleven prefixes, and with each byte changed; pictures of accounts; cards and text; pallets of any ASCII name to 24 characters; any ASCII names, docs, parts of paths, units, chain names and texts to 6 characters (thorough 12) and of up to 4 characters of 1 to 4 bytes; besides, values of 20 and 300 parts',
        assumptions=['plot_icon (external crate, draws the picture of an account) is replaced by a stand-in that returns the bytes of the account (harness/standin/icon)', 'core prints an integer with its decimal digits (numbers made of symbolic digits)'],
        jobs=[*[job('h_card_leaf', k, bound='one kind of value alone') for k in range(47)],
              *[job('h_card', k, 0, bound='one constructor, with text') for k in range(14)],
              *[job('h_card', k, 1, bound='two constructors', weight=4) for k in range(14)],
              *[job('h_card', k, 2, splits=8, bound='three constructors', thorough_only=1) for k in range(14)],
              job('h_card_tx', covers=(1, 2), splits=4, weight=4, bound='transactions'),
              *[job('h_card_leaf', k, target='wasm', bound='one kind of value alone, without std and on 32 bits') for k in range(38, 40)],
              *[job('h_card', k, 0, target='wasm', bound='one constructor, without std and on 32 bits') for k in (0, 6, 9, 11)],
              job('h_card_id', A, bound='accounts and keys, with pictures'),
              job('h_card_id', A, target='wasm', bound='accounts and keys, no pictures'),
              job('h_name_card', 24, thorough=[40], bound='pallets of any name'),
              *[job('h_name_show', k, 6, thorough=[k, 12], bound=f'any {n}') for k, n in enumerate(('field name', 'docs', 'pallet name', 'variant or call name', 'type docs', 'type paths', 'unit, chain name, text'))],
              *[job('h_long_card', A, n, bound=f'values of {n} parts') for n in (20, 300)]]),
    'P15': dict(
        bounds='an access fails at any moment (the first 255), alone or with all further ones; values of one type constructor over a leaf (thorough two) with data to 6 bytes, 22 dedicated types, signatures, calls and events, signable transactions to 6 bytes around a hash by all three ways in, unchecked extrinsics to 7 bytes, storage entries of all hashers; besides, texts, bits and bytes of 100 and 300 bytes',
        assumptions=['blake2_128 and twox_64 (external crate) are replaced by stand-ins with the same interface (harness/standin/hashing)', 'one memory of the sort: a buffer with a length and types looked up by number'],
        jobs=[job('h_mem_shape', 0, 0, 6, 0, covers=(1, 2, 3), bound='leaves'),
              job('h_mem_shape', 1, 1, 3, 0, thorough=[1, 1, 6, 0], covers=(1, 2, 3), splits=4, weight=2, bound='one constructor'),
              job('h_mem_shape', 1, 2, 3, 0, covers=(1, 2, 3), splits=8, thorough_only=1, bound='two constructors'),
              job('h_mem_shape', 0, 0, 6, 1, covers=(1, 2, 3), bound='leaves, one fault'),
              job('h_mem_shape', 1, 1, 2, 1, thorough=[1, 1, 4, 1], covers=(1, 2, 3), splits=4, bound='one constructor, one fault'),
              *[job('h_mem_special', A, o, covers=(1, 2, 3), bound='22 types') for o in (0, 1)],
              job('h_mem_bits', A, A, 9, thorough=[A, A, 18], covers=(1, 2, 3), splits=2, bound='bit sequences'),
              job('h_mem_enum', A, covers=(1, 2, 3), bound='signature, call, event'),
              *[job('h_mem_enum_once', k, covers=(1, 2, 3), bound='one fault: ' + n) for k, n in enumerate(('signature', 'call', 'event'))],
              *[job('h_mem_tx', n, a, g, covers=(1, 2, 3) if a != 2 else (1, 3), bound='signable transaction') for a in range(3) for n, g in ((5, 0), (6, 1))],
              job('h_mem_tx', 7, 2, 0, covers=(1, 3), thorough_only=1, bound='signable transaction'),
              job('h_mem_unchecked', 6, thorough=[8], covers=(1, 2, 3), bound='unchecked extrinsics'),
              *[job('h_mem_store', k, o, covers=(1, 2, 3), bound='storage entry') for k in range(9) for o in (0, 1)],
              *[job('h_long_mem', n, A, covers=(1, 2, 3), bound=f'values of {n} bytes') for n in (100, 300)]]),
    'P16': dict(
        bounds='every registry of up to 3 types (structs and tuples of 0 to 2, compacts, arrays of 2, vectors, enums of 1 and 2 variants, calls, bytes, names, paths and docs given or not) and of up to 5 types with one part each, references anywhere; '
               'data of up to 3 bytes out of 0, 4, 8 (thorough: 4 types, 5 of one part, 4 bytes); 400 lookups at most; values, storage keys of up to two hashers and values, calls, extensions, unchecked extrinsics; besides, cycles and chains of 5, 17, 60 and 200 types',
        assumptions=['lengths in the data are below 3, so that the bound on lookups does not depend on them'],
        jobs=[job('h_any', 3, 2, 0, 0, thorough=[3, 4, 0, 0], covers=(1, 2, 3), splits=8, weight=9, bound='3 types'),
              job('h_any', 2, 4, 0, 1, thorough=[2, 6, 0, 1], covers=(1, 2, 3), splits=2, bound='2 types'),
              job('h_any', 4, 3, 1, 1, thorough=[5, 4, 1, 1], covers=(1, 2, 3), splits=4, weight=5, bound='chains of 4 types'),
              job('h_any', 5, 1, 1, 0, thorough=[6, 1, 1, 0], covers=(1, 2, 3), splits=4, weight=5, bound='chains of 5 types'),
              job('h_any', 4, 2, 0, 0, covers=(1, 2, 3), splits=32, weight=9, thorough_only=1, bound='4 types'),
              job('h_any_store', 2, 2, 0, 0, thorough=[3, 2, 0, 0], covers=(1, 2, 3), splits=2, bound='storage values'),
              job('h_any_store', 2, 2, 0, 1, thorough=[3, 2, 0, 1], covers=(1, 2, 3), splits=2, bound='storage keys'),
              job('h_any_store', 3, 3, 0, 2, covers=(1, 2, 3), splits=2, bound='storage keys of two parts'),
              job('h_any_tx', 2, 3, 0, 0, 1, 0, thorough=[3, 2, 0, 0, 1, 0], covers=(2, 3), splits=2, bound='calls'),
              job('h_any_tx', 2, 2, 0, 1, 0, 1, thorough=[2, 4, 0, 1, 0, 1], covers=(2, 3), splits=2, bound='an extension'),
              job('h_any_tx', 3, 1, 1, 2, 0, 0, covers=(2, 3), splits=4, bound='two extensions'),
              job('h_any_tx', 2, 1, 0, 2, 0, 0, covers=(2, 3), splits=8, thorough_only=1, bound='two extensions'),
              job('h_any_unchecked', 2, 3, 0, A, thorough=[2, 5, 0, A], covers=(1, 2, 3), splits=2, bound='unchecked extrinsics'),
              *[job('h_long_cycle', n, A, k, covers=(1,), bound=f'{n} types in a row, ' + ('open' if k else 'closed')) for n in (5, 17, 60, 200) for k in (0, 1)]]),
    'P17': dict(
        bounds='18 combinations of field and type name, 4 hinting paths; 9 kinds of values under 1 wrapper of 11 kinds (unsigned byte and hash under 2; thorough: all values under 2, bytes under 3); '
               '9 extension identifiers on types with up to 1 wrapper (thorough 2); enough bytes and too few, all contents with vectors of up to 8 elements; fields of any ASCII name and type name to 20 characters, types and extensions of any name to 26 (25); besides, 10 and 40 wrappers',
        jobs=[job('h_hint', 1, A, covers=(1, 2), splits=2, bound='one wrapper, all names'),
              *[job('h_hint', 2, k, covers=(1, 2), splits=2, bound='two wrappers') for k in (0, 3)],
              *[job('h_hint', 2, k, covers=(1, 2), splits=2, bound='two wrappers', thorough_only=1) for k in (1, 2, 4, 5, 6, 7, 8)],
              job('h_hint', 3, 0, covers=(1, 2), splits=8, bound='three wrappers', thorough_only=1),
              job('h_hint', 2, 0, 1, covers=(1, 2), splits=4, bound='two wrappers, as an element of a set'),
              job('h_hint', 2, 3, 1, covers=(1, 2), splits=4, bound='two wrappers, as an element of a set'),
              job('h_hint', 1, A, 1, covers=(1, 2), splits=2, bound='one wrapper, as an element of a set'),
              job('h_hint_ext', 0, covers=(1, 2), bound='extensions'),
              job('h_hint_ext', 1, covers=(1, 2), bound='extensions, one wrapper'),
              job('h_hint_ext', 2, covers=(1, 2), splits=4, bound='extensions, two wrappers', thorough_only=1),
              *[job('h_name_hint', 20, 20, k, j, thorough=[24, 24, k, j], covers=(1, 2) if j or k in (1, 3) else (1,), bound='fields of any name and type name') for k in range(5) for j in (0, 2)],
              *[job('h_name_hint', 20, 20, k, j, covers=(1, 2), bound='fields of any name and type name', thorough_only=1) for k in range(5) for j in (1, 3)],
              job('h_space_special', 12, 6, 13, thorough=[12, 8, 20], covers=(1, 2), bound='hinting types, up to 6 names before theirs'),
              job('h_name_path', 26, thorough=[40], covers=(1, 2), bound='types of any name'),
              job('h_name_ext', 0, 25, thorough=[0, 40], covers=(1, 2), splits=2, bound='extensions of any identifier'),
              *[job('h_long_wrap', n, covers=(1, 2), bound=f'{n} wrappers') for n in (10, 40)]]),
    'P18': dict(
        bounds='every registry of up to 2 types of 38 kinds (all primitives, structs and tuples of 0 to 2, compacts, arrays of 0, 2 and 2^32-1, vectors, bit sequences, enums, special paths on types of any shape, hinting names), also dangling and cyclic; '
               'of up to 3 types of 17 kinds; all data to 3 bytes; six start positions up to 2^64-1; values, storage keys and values, calls, extensions, unchecked extrinsics. No allocation of 64 MiB or more. Besides, every path of the other checks is a violation if it panics',
        assumptions=['memory and stack suffice: elements of vectors and of arrays of 2^32-1 take a byte at least', 'at most 100 lookups on a path'],
        jobs=[job('h_any', 2, 2, 2, 0, thorough=[2, 4, 2, 0], covers=(1, 2, 3, 4), splits=4, weight=5, bound='2 types'),
              job('h_any', 2, 2, 2, 2, thorough=[2, 3, 2, 2], covers=(1, 2, 3, 4), splits=8, weight=9, bound='2 types, start positions'),
              job('h_any', 1, 5, 2, 1, thorough=[1, 9, 2, 1], covers=(1, 2, 3, 4), splits=2, bound='1 type'),
              job('h_any', 3, 1, 3, 1, thorough=[3, 3, 3, 1], covers=(1, 2, 3, 4), splits=8, weight=9, bound='3 types of 17 kinds'),
              job('h_any_store', 2, 1, 2, 0, thorough=[2, 3, 2, 0], covers=(1, 2, 3, 4), splits=4, bound='storage values'),
              job('h_any_store', 2, 2, 2, 1, thorough=[2, 3, 2, 1], covers=(1, 2, 3, 4), splits=4, weight=5, bound='storage keys'),
              job('h_any_store', 3, 2, 3, 2, covers=(1, 2, 3, 4), splits=4, bound='storage keys of two parts'),
              job('h_any_tx', 2, 2, 2, 0, 1, 0, thorough=[2, 4, 2, 0, 1, 0], covers=(2, 3, 4), splits=4, bound='calls'),
              job('h_any_tx', 2, 2, 3, 1, 1, 0, thorough=[2, 3, 2, 1, 1, 1], covers=(2, 3, 4), splits=4, bound='an extension'),
              job('h_any_tx', 2, 2, 3, 1, 0, 1, thorough=[2, 3, 2, 1, 0, 1], covers=(2, 3, 4), splits=4, bound='an extension'),
              job('h_any_unchecked', 2, 2, 2, A, thorough=[2, 4, 2, A], covers=(1, 2, 3, 4), splits=4, bound='unchecked extrinsics')]),
    'P19': dict(
        bounds='version constants of up to 3 fields (thorough 4) of 9 kinds, spec versions of all five widths (one, two and the most digits), names of up to 2 ASCII characters, with a byte too many or too few; 8 types of constants with up to 4 bytes; '
               'up to 3 pallets of 4 names with up to 2 constants of 3 names; 10 types of extrinsics with up to 4 parameters of 6 names in any order (thorough 5); up to 4 signed extensions; any ASCII name to 16 characters of pallet, constant, fields and parameters; besides, 40 and 300 pallets, constants, extensions, characters of the name',
        assumptions=['core prints an integer with its decimal digits (numbers made of symbolic digits; for u8 the code of core is executed)', 'no name occurs twice among pallets, constants and parameters'],
        jobs=[*[job('h_version', w, 3, thorough=[w, 4], covers=(1, 2), splits=2, bound='fields of the version constant') for w in range(5)],
              job('h_version_type', covers=(1, 2), bound='types of the version constant'),
              job('h_version_place', 2, thorough=[3], covers=(1, 2), bound='pallets and constants'),
              job('h_params', 4, thorough=[5], covers=(1, 2), splits=2, bound='extrinsic parameters'),
              job('h_exts', 4, bound='signed extensions'),
              job('h_types', 2, thorough=[3], covers=(1, 2), bound='types'),
              *[job('h_name_version', k, 16, thorough=[k, 30], covers=(1, 2), bound='any name of a field, the pallet or the constant') for k in range(4)],
              *[job('h_name_params', k, 12, thorough=[k, 24], covers=(1, 2) if k < 4 else (1,), bound='any name of a parameter') for k in range(5)],
              job('h_name_extrinsic', 20, thorough=[30], covers=(1, 2), bound='any path of the extrinsic'),
              *[job('h_long_meta', n, bound=f'{n} pallets, constants, extensions and characters') for n in (40, 300)]]),
    'P20': dict(
        bounds='wasm32: u64 bit sequences of 0..66, 125..128 and 189..193 bits, both orders, all bits (thorough: to 321 bits), other stores and orders with data to 6 bytes; '
               'all primitives, compacts and one-constructor types with the bounds of P01..P03; eras, signatures, calls, sets, variants, labels, extensions, storage entries, docs, external memory, metadata, amounts, cycles, errors and ids of types with bounds as in their properties or smaller; besides, strings to 70000 bytes, sets of 300 elements, 300 fields, 70000 bits, transactions with 70 bytes, unchecked extrinsics and storage entries of 300 and 70',
        assumptions=['wasm32v1-none stands for the 32-bit targets'],
        jobs=[job('h_bits', 3, 0, 17, thorough=[3, 0, 41], covers=(1, 2), target='wasm', bound='u64 Lsb0, data to 17 bytes'),
              job('h_bits', 3, 1, 17, thorough=[3, 1, 41], covers=(1, 2), target='wasm', bound='u64 Msb0, data to 17 bytes'),
              job('h_bits', A, A, 6, thorough=[A, A, 10], covers=(1, 2), target='wasm', bound='9 stores x 6 orders'),
              *[job('h_bits_long', 3, o, n, covers=(1, 2), target='wasm', bound='bits n..n+3', **k) for o in range(2)
                for n, k in ((64, {}), (125, {}), (189, {}), (190, {}), (256, {'thorough_only': 1}), (318, {'thorough_only': 1}))],
              job('h_prim', A, covers=(1, 2), target='wasm', bound='15 primitives, all bytes', splits=2),
              job('h_compact', A, A, covers=(1, 2), target='wasm', bound='10 numbers x 5 wrappings', splits=4),
              job('h_str', 4, thorough=[6], covers=(1, 2), target='wasm', bound='strings', splits=2),
              job('h_special', A, A, covers=(1, 2), target='wasm', bound='22 types x 3 placements', splits=2),
              job('h_shape', A, 0, 6, thorough=[A, 0, 9], covers=(1, 2), target='wasm', bound='one constructor over a leaf', splits=4),
              job('h_tx', 0, 6, 3, thorough=[0, 9, 6], covers=(1, 2, 3, 4, 5, 6), target='wasm', splits=2, bound='signable transactions'),
              job('h_unchecked', 8, 0, thorough=[10, 0], covers=(1, 2, 3), target='wasm', splits=2, bound='unchecked extrinsics'),
              job('h_any', 2, 1, 2, 2, thorough=[2, 2, 2, 2], covers=(1, 2, 3, 4), target='wasm', splits=4, bound='any registry of 2 types, start positions'),
              job('h_store_plain', 5, covers=(1, 2), target='wasm', bound='plain storage entries'),
              *[job(e, *p, covers=c, target='wasm', splits=k, bound='as in the other properties: ' + n) for e, p, c, k, n in (
                  ('h_era', [], (1, 2), 1, 'eras'), ('h_era_codec', [], (1, 2), 1, 'eras'), ('h_era_roundtrip', [], (1,), 1, 'eras'),
                  ('h_multisig', [A], (1, 2), 2, 'signatures'), ('h_pallet', [A], (1, 2), 4, 'calls and events'),
                  ('h_set', [A, 3, 0], (1, 2), 1, 'arrays'), ('h_set', [A, 3, 1], (1, 2), 1, 'vectors'), ('h_variant', [], (1, 2), 1, 'variants'),
                  ('h_compact_bad', [], (1, 2), 1, 'types without compact form'), ('h_hint', [1, A], (1, 2), 1, 'labels'), ('h_hint_ext', [0], (1, 2), 1, 'labels of extensions'),
                  ('h_ext', [2, A], (1, 2), 2, 'signed extensions'), ('h_store_one', [A, A], (1, 2), 2, 'storage entries with one hasher'),
                  ('h_store_tuple', [A, A, 4], (1, 2), 1, 'storage entries with two hashers'), ('h_info', [A, 0, 2], (1, 2), 1, 'docs and paths'), ('h_info_special', [], (1, 2), 1, 'docs and paths'),
                  ('h_local_more', [3], (1, 2, 3), 2, 'other places of other types'), ('h_deep', [A, 40], (1, 2), 1, 'types in types'), ('h_deep_call', [40, 0], (1, 2), 1, 'calls in calls'), ('h_locality', [A, 0, 6], (1, 2, 3), 1, 'other places'), ('h_mem_shape', [0, 0, 4, 0], (1, 2, 3), 1, 'external memory'),
                  ('h_balance', [2], (1, 2), 1, 'amounts'), ('h_balance', [4], (1, 2), 1, 'amounts'), ('h_balance_small', [1], (1, 2), 1, 'amounts'),
                  ('h_long_cycle', [17, A, 0], (1,), 1, 'cycles'), ('h_ids_odd', [A, 0], (1, 2), 1, 'ids of types'), ('h_ids_store', [A, 0], (1, 2), 1, 'ids of types'),
                  ('h_ids_shape', [0, 1, 3, 0], (1, 2), 1, 'ids of types'), ('h_why_shape', [A, 0, 4], (1, 2), 1, 'errors'), ('h_why_any', [2, 2, 2, 1], (1, 2), 1, 'errors'),
                  ('h_why_unchecked', [8], (1, 2), 1, 'errors'), ('h_why_tx', [A, 4], (1, 2, 3, 4), 1, 'errors'), ('h_why_text', [A], (1,), 1, 'texts of errors'),
                  ('h_why_bits', [A, A, 3], (1, 2), 1, 'errors'), ('h_why_str', [4], (1, 2), 1, 'errors'), ('h_why_compact', [A, A], (1, 2), 1, 'errors'),
                  ('h_params', [4], (1, 2), 1, 'extrinsic parameters'), ('h_exts', [4], (1,), 1, 'signed extensions in metadata'), ('h_types', [2], (1, 2), 1, 'types in metadata'))],
              *[job(e, *p, covers=c, target='wasm', bound='long: ' + n) for e, p, c, n in (
                  ('h_long_str', [300], (1, 2), 'strings'), ('h_long_str', [70000], (1, 2), 'strings'), ('h_long_set', [A, 300, 1], (1, 2), 'vectors'),
                  ('h_long_bits', [A, A, 2048], (1, 2), 'bits'), ('h_long_bits', [3, A, 70000], (1, 2), 'bits'), ('h_many_fields', [A, 300], (1, 2), 'fields'),
                  ('h_long_tx', [70], (1, 3, 4, 5, 6), 'transactions'), ('h_long_unchecked', [300], (1, 3), 'unchecked extrinsics'), ('h_long_store', [70, 0], (1, 2), 'storage entries'),
                  ('h_far', [70000, 0, 4], (1, 2), 'positions'))]]),
    'P21': dict(
        bounds='one constructor over a leaf (thorough also two), data to 4 bytes (thorough 6); 8 types with dedicated representation in 3 placements; storage entries of three kinds; 6 patterns of docs and paths over all types, fields and variants; any ASCII lines of docs and parts of paths to 2 characters (thorough 4), lines of 5 and 7 characters; besides, docs of 40 and 300 lines, of 10 and 40 types',
        jobs=[job('h_info', A, 0, 4, thorough=[A, 0, 6], covers=(1, 2), splits=4, bound='one constructor'),
              job('h_info', A, 1, 3, covers=(1, 2), splits=8, bound='two constructors', thorough_only=1),
              job('h_name_info', A, 2, 2, thorough=[A, 4, 2], covers=(1, 2), splits=4, bound='any docs and paths'),
              job('h_info_special', covers=(1, 2), bound='dedicated representations, calls, events'),
              job('h_info_store', covers=(1, 2), bound='storage entries'),
              *[job('h_long_docs', n, covers=(1, 2), bound=f'{n} lines of docs and segments of paths') for n in (40, 300)],
              *[job('h_long_wrap', n, covers=(1, 2), bound=f'docs of {n} types') for n in (10, 40)]]),
    'P22': dict(
        bounds='types and data as in P01..P08 and P11..P13 with smaller bounds (one constructor over a leaf with data to 4 bytes, any registry of 2 types of depth 3 with data to 3 bytes, sets of up to 2 elements), '
               'signable transactions with calls to 4 bytes, up to 3 extensions, unchecked extrinsics to 8 bytes, every kind of storage entry, metadata with up to 2 pallets; external memory that fails from any access on; '
               'texts of all errors with every number to 3 digits',
        jobs=[job('h_why_prim', A, covers=(1, 2), bound='15 primitives'),
              job('h_why_str', 5, thorough=[8], covers=(1, 2), bound='strings'),
              job('h_why_compact', A, A, covers=(1, 2), bound='10 numbers x 5 wrappings'),
              job('h_why_bad', covers=(1, 2), bound='26 types without compact form'),
              job('h_why_shape', A, 0, 4, thorough=[A, 0, 6], covers=(1, 2), splits=2, bound='one constructor'),
              job('h_why_shape', A, 1, 2, thorough=[A, 1, 4], covers=(1, 2), splits=4, bound='two constructors'),
              job('h_why_moved', A, 0, 6, covers=(1, 2), bound='leaves behind other bytes'),
              job('h_why_moved', A, 1, 3, thorough=[A, 1, 5], covers=(1, 2), bound='depth 1 behind other bytes'),
              *[job('h_why_moved_more', k, covers=(1, 2), bound='22 types, bit sequences, signatures, calls, events behind other bytes') for k in range(3)],
              job('h_why_set', A, 2, 0, thorough=[A, 5, 0], covers=(1, 2), bound='arrays'),
              job('h_why_set', A, 2, 1, thorough=[A, 5, 1], covers=(1, 2), bound='vectors'),
              job('h_why_variant', covers=(1, 2), bound='three variants'),
              job('h_why_bits', A, A, 3, thorough=[A, A, 9], covers=(1, 2), bound='9 stores x 6 orders'),
              job('h_why_era', covers=(1, 2), bound='eras'),
              job('h_why_special', A, A, covers=(1, 2), bound='22 types x 3 placements'),
              job('h_why_multisig', A, covers=(1, 2), splits=2, bound='multi-signatures'),
              job('h_why_pallet', 0, thorough=[A], covers=(1, 2), splits=2, bound='calls and events'),
              job('h_why_nested_call', 4, thorough=[7], covers=(1, 2), bound='nested calls'),
              job('h_why_any', 2, 3, 2, 1, covers=(1, 2), splits=4, bound='any registry of 2 types'),
              job('h_why_any', 2, 2, 2, 2, covers=(1, 2), splits=4, thorough_only=1, bound='any registry of 2 types'),
              job('h_why_tx', A, 4, thorough=[A, 7], covers=(1, 2, 3, 4), splits=2, bound='signable transactions'),
              job('h_why_ext', 1, A, covers=(2,), bound='one extension'),
              job('h_why_ext', 2, A, covers=(1, 2), splits=2, bound='two extensions'),
              job('h_why_ext', 3, 1, thorough=[3, A], covers=(1, 2), splits=2, bound='three extensions'),
              job('h_why_unchecked', 8, thorough=[11], covers=(1, 2), bound='unchecked extrinsics'),
              job('h_why_version', covers=(1, 2, 3), bound='extrinsic versions'),
              *[job('h_why_store', k, covers=(1, 2, 3), bound='storage entries') for k in (0, 3, 5, 6)],
              *[job('h_why_store', k, covers=(1, 2) if k == 7 else (1, 2, 3), splits=4 if k == 8 else 1, bound='storage entries') for k in (7, 8, 9)],
              job('h_why_meta', 0, 2, thorough=[0, 3], covers=(1, 2), bound='metadata V14'),
              job('h_why_meta', 2, 2, thorough=[2, 3], covers=(1, 2), bound='metadata V15'),
              job('h_why_meta_type', covers=(1, 2), bound='extrinsic types'),
              job('h_why_meta_place', 2, thorough=[3], covers=(1, 2), bound='fields of the version'),
              job('h_why_params', 4, covers=(1, 2), splits=2, bound='parameters of the extrinsic'),
              job('h_why_distinct', bound='all texts differ'),
              job('h_why_text', A, splits=2, bound='texts of all errors'),
              job('h_why_mem_shape', 1, 1, 2, 0, thorough=[1, 1, 5, 0], covers=(5, 6), splits=2, bound='failing external memory: types'),
              job('h_why_mem_special', A, 0, covers=(5, 6), bound='failing external memory: 22 types'),
              job('h_why_mem_enum', A, covers=(5, 6), bound='failing external memory: signature, call, event'),
              job('h_why_mem_bits', A, A, 9, thorough=[A, A, 18], covers=(5, 6), bound='failing external memory: bit sequences'),
              *[job('h_why_mem_tx', n, a, g, covers=(5, 6), bound='failing external memory: transactions') for a in range(2) for n, g in ((5, 0), (6, 1))],
              job('h_why_mem_tx', 4, 2, 0, thorough=[6, 2, 0], covers=(5, 6), bound='failing external memory: marked transactions'),
              job('h_why_mem_unchecked', 6, thorough=[8], covers=(5, 6), bound='failing external memory: unchecked extrinsics'),
              job('h_why_mem_store', A, 0, covers=(5, 6), splits=4, bound='failing external memory: storage entries'),
              job('h_why_mem_bits', A, A, 9, thorough=[A, A, 17], covers=(5, 6), target='wasm', bound='failing external memory: bit sequences, 32-bit'),
              job('h_why_bits', 3, A, 9, thorough=[3, A, 17], covers=(1, 2), target='wasm', bound='u64 bit sequences, 32-bit'),
              job('h_why_compact', A, A, covers=(1, 2), target='wasm', bound='compacts, 32-bit')]),
    'P23': dict(
        bounds='all assignments of distinct 32-bit ids to the types of: types nested to depth 1 with data to 5 bytes and depth 2 with data to 2 bytes (thorough: 7 and 4), 22 types by path, signatures, calls and events, cyclic, dangling and malformed types with data to 5 bytes, signable transactions of 5 to 6 bytes and a hash, unchecked extrinsics to 7 bytes (thorough 9), storage entries with every hasher and pair of hashers; each with types of equal description apart and as one; V14 and V15 metadata with its types turned and reversed in every way, also behind 300 others',
        jobs=[*[job('h_ids_shape', 0, 1, 5, m, thorough=[0, 1, 7, m], covers=(1, 2), splits=2, bound='depth 1') for m in (0, 1)],
              *[job('h_ids_shape', 0, 2, 2, m, thorough=[0, 2, 4, m], covers=(1, 2), splits=2, bound='depth 2') for m in (0, 1)],
              *[job('h_ids_special', A, m, covers=(1, 2), bound='22 types by path') for m in (0, 1)],
              *[job('h_ids_enum', A, m, 6, covers=(1, 2), bound='signatures, calls, events') for m in (0, 1)],
              *[job('h_ids_odd', A, m, covers=(1, 2), bound='12 odd registries') for m in (0, 1)],
              *[job('h_ids_tx', n, a, g, m, thorough=[n + 1, a, g, m], covers=(1, 2), bound='signable transactions') for m in (0, 1) for a in range(3) for n, g in ((5, 0), (6, 1))],
              *[job('h_ids_unchecked', 7, m, thorough=[9, m], covers=(1, 2), bound='unchecked extrinsics') for m in (0, 1)],
              *[job('h_ids_store', A, m, covers=(1, 2), bound='storage entries') for m in (0, 1)],
              job('h_ids_place', 0, 3, thorough=[0, 5], covers=(1, 2), bound='orders of the types of metadata'),
              job('h_ids_place', 300, 2, covers=(1, 2), bound='the same behind 300 types')]),
}
NOT_APPLICABLE = {}
