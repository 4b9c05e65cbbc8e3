SEEDS={
'S01-mstore-u32-stale': dict(property='C07', kind='std',
 edits=[('stdlib/chain.c','''  uint32_t *memory_ptr_u32 = (uint32_t *)(memory_ptr + 24);
  *memory_ptr_u32 = 0;

  // Write big endian encoded value to last 4 bytes
''','''  // Write big endian encoded value to last 4 bytes
''')],
 needs='bytes 24..27 of a word are non-zero in EVM memory, then a non-zero 32-bit value is stored over the word',
 breaks='mstore of a 32-bit value leaves four stale bytes: the word reads back with bits of the old content',
 demo='''
const s = open(), M = (1n << 256n) - 1n, v = s.u256(M), r = s.u256();
s.e.wrapper_mstore_u256(64, v); s.e.wrapper_mstore_u32(64, 7); s.e.wrapper_mload_u256(64, r);
check('mstore(64, 7) over ones', s.le(r), 7n);
s.e.wrapper_mstore_u256(64, v); s.e.wrapper_mstore_u32(64, 0); s.e.wrapper_mload_u256(64, r);
check('mstore(64, 0) over ones', s.le(r), 0n);
'''),
'S02-calldata-cache-bound': dict(property='C08', kind='std',
 edits=[('stdlib/chain.c','''  if (calldata_size > CACHED_CALLDATA_COPY_THRESHOLD) {''','''  if (!CACHED_CALLDATA_FITS(offset, size)) {'''),
        ('stdlib/chain.c','''#define CACHED_CALLDATA_COPY_THRESHOLD 100
''','''#define CACHED_CALLDATA_COPY_THRESHOLD 100
#define CACHED_CALLDATA_FITS(offset, size)                                     \\
  ((uint32_t)(offset) + (size) <= CACHED_CALLDATA_COPY_THRESHOLD)
'''),
        ('stdlib/chain.c','''    callDataCopy((ADDRESS_UINT)cached_calldata, 0, calldata_size);
    cached = 1;''','''    callDataCopy((ADDRESS_UINT)cached_calldata, 0,
                 calldata_size < 96 ? calldata_size : 96);
    cached = 1;''')],
 needs='call data of 97 or more bytes and a read that ends between byte 97 and byte 100',
 breaks='the cache keeps only 96 bytes but answers reads up to byte 100: the last four bytes read as zero',
 demo='''
const s = open(), r = s.u256();
s.calldata = new Uint8Array(132).map((_, i) => i + 1);
for (const o of [4, 36, 68, 100, 66, 67]) { s.e.wrapper_calldataload_u256(o, r); check('calldataload(' + o + ')', s.le(r), fromBE(s.calldata.slice(o, o + 32))); }
'''),
'S03-exp-wide-exponent': dict(property='C06', kind='std',
 edits=[('stdlib/chain.c','''    exp >>= 1;
    if (!exp) {
      break;
    }''','''    exp >>= 1;
    if (!(uint64_t)exp && (uint64_t)(exp >> 64) == 0) {
      break;
    }''')],
 needs='an exponent with a set bit at or above 129 and 128 clear bits below it at some point of the loop',
 breaks='exp stops as soon as the low 128 bits of the remaining exponent are zero: 3 ** (2 ** 200) becomes 1',
 demo='''
const M = (1n << 256n) - 1n, s = open();
const pow = (a, e) => { let r = 1n; while (e) { if (e & 1n) r = r * a & M; a = a * a & M; e >>= 1n; } return r; };
for (const [a, e] of [[3n, 5n], [3n, 1n << 200n], [M, (1n << 255n) + 1n], [7n, (1n << 128n) + 9n], [2n, 255n]]) {
  const x = open(), r = x.u256(); x.e.wrapper_exp(x.u256(a), x.u256(e), r); check(`exp(${a}, ${e})`, x.le(r), pow(a, e));
}
'''),
'S04-immutable-flag-or': dict(property='C10', kind='std',
 edits=[('stdlib/chain.c','''    flag_slot_bytes[i] += prefix[i];''','''    flag_slot_bytes[i] |= prefix[i];''')],
 needs='two immutables whose keys differ only in bits the prefix sets, e.g. names 0... and 4...',
 breaks='the "already set" flags of two different immutables share one storage slot: setting the second reverts',
 demo='''
const key = n => fromBE(Buffer.from(('immutable_' + n).padEnd(32, '\\0')));
const s = open(), a = s.u256(), b = s.u256(5n), r = s.u256();
for (const [n, v] of [['01', 11n], ['41', 22n], ['51', 33n], ['11', 44n]]) {
  s.wr(a, toBE(key(n)).reverse()); s.wr(b, toBE(v).reverse());
  check('setimmutable ' + n, s.call('wrapper_setimmutable', 0, a, b).halt, undefined);
  s.wr(a, toBE(key(n)).reverse()); s.e.wrapper_loadimmutable(a, r); check('loadimmutable ' + n, s.le(r), v);
}
'''),
'S05-call-exact-return': dict(property='C11', kind='std',
 edits=[('stdlib/chain.c','''    if (ret_data_size < out_length) {
      if (call_status == 0) {''','''    if (ret_data_size <= out_length) {
      if (call_status == 0) {''')],
 needs='a failing call whose revert data has exactly the length of the output area',
 breaks='instead of returning 0 with the revert data in the output area, the caller itself reverts',
 demo='''
const ret = (st, n) => ({ callContract: s => { s.returndata = new Uint8Array(n).fill(0xee); return st; } });
for (const [st, n] of [[0, 32], [1, 40], [1, 32], [0, 10]]) {
  const s = open(ret(st, n)), r = s.call('wrapper_call_contract', 100n, s.word(0x123456789abcdefn << 70n), s.u256(0n), 0, 0, 0, 32);
  check(`call status ${st} with ${n} bytes`, r.halt || r.v, st ? 0 : 1);
  const o = s.u256(); s.e.wrapper_mload_u256(0, o); check('first output byte', s.le(o) >> 248n, 0xeen);
}
'''),
'S06-callvalue-top-limb': dict(property='C14', kind='std',
 edits=[('stdlib/chain.c','''  int64_t *data_int64 = (int64_t *)data;
  for (int i = 0; i < 4; i++) {
    if (data_int64[i] != 0) {''','''  int64_t *data_int64 = (int64_t *)data;
  for (int i = 1; i < 4; i++) {
    if (data_int64[i] != 0) {''')],
 needs='a call value that is a multiple of 2**192',
 breaks='the non-payable test sees such a call value as zero',
 demo='''
for (const v of [0n, 1n, 1n << 64n, 1n << 128n, 1n << 192n, 1n << 255n]) {
  const s = open({ getCallValue: (s, p) => s.wr(p, toBE(v)) });
  check('callvalue ' + v, !!s.e.wrapper_callvalue_not_zero(), v !== 0n);
}
'''),
'S07-slot-first-extra': dict(property='C15', kind='std',
 edits=[('stdlib/chain.c','''    // allocate one bytes32 memory for return
    extra_memory_alloca_bytes32_memory_used_size = 0;
    bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
                                  extra_memory_alloca_bytes32_memory_used_size);
    extra_memory_alloca_bytes32_memory_used_size += sizeof(bytes32);
    return result;''','''    // the first bytes32 memory of the new page
    extra_memory_alloca_bytes32_memory_used_size = 0;
    return (bytes32 *)extra_memory_alloca_bytes32_memory_begin;''')],
 needs='more than 300 live word slots',
 breaks='the 301st and the 302nd word slot are the same 32 bytes',
 demo='''
const s = open(), seen = new Set();
for (let i = 0; i < 400; i++) { const p = s.e.memory_alloca_bytes32() >>> 0; check('slot ' + i + ' is new', seen.has(p), false); seen.add(p); }
'''),
'S08-transfer-self': dict(property='C16', kind='std',
 edits=[('stdlib/chain.c','''  // write new balance to the from
  uint256_t new_from_balance_u256 = tmp_balance_u256 - var_value_u256;
  storageStoreLittleEndian((ADDRESS_UINT)tmp_keccak256_result,
                           (ADDRESS_UINT)&new_from_balance_u256);
  // calculate''','''  // the new balance of the from
  uint256_t new_from_balance_u256 = tmp_balance_u256 - var_value_u256;
  uint8_t from_slot[32];
  memcpy(from_slot, tmp_keccak256_result, 32);
  // calculate'''),
  ('stdlib/chain.c','''  storageStoreLittleEndian((ADDRESS_UINT)tmp_keccak256_result,
                           (ADDRESS_UINT)&new_to_balance_u256);''','''  storageStoreLittleEndian((ADDRESS_UINT)from_slot,
                           (ADDRESS_UINT)&new_from_balance_u256);
  storageStoreLittleEndian((ADDRESS_UINT)tmp_keccak256_result,
                           (ADDRESS_UINT)&new_to_balance_u256);''')],
 needs='a transfer whose sender and recipient are the same account',
 breaks='the recipient balance is read before the sender balance is written: a self-transfer creates tokens',
 demo='''
const slot = a => fromBE(require('crypto').createHash('sha256').update(Buffer.concat([toBE(a), new Uint8Array(32)])).digest());
for (const [a, b] of [[1n, 2n], [5n, 5n]]) {
  const s = open(); s.storage.set(slot(a), 100n);
  s.call('wrapper_optimized_erc20_fun_transfer', s.word(a), s.word(b), s.word(30n));
  check(`total after transfer ${a} to ${b}`, [...s.storage.values()].reduce((x, y) => x + y, 0n), 100n);
}
'''),
'S09-create2-salt': dict(property='C12', kind='std',
 edits=[('stdlib/chain.c','''  uint256_t salt_u256 = *salt;
  uint8_t salt_bytes[32];
  u256_to_big_endian(salt_u256, salt_bytes);''','''  uint8_t salt_bytes[32] = {0};
  u64_to_big_endian((uint64_t)*salt, salt_bytes + 24);
  u64_to_big_endian((uint64_t)(*salt >> 64), salt_bytes + 16);
  u64_to_big_endian((uint64_t)(*salt >> 128), salt_bytes + 8);''')],
 needs='a create2 salt of 2**192 or more',
 breaks='create2 drops the upper 64 bits of the salt: two salts give the same address',
 demo='''
for (const salt of [0n, 5n, 1n << 130n, (1n << 256n) - 1n, 1n << 200n]) {
  let got; const s = open({ createContract: (s, v, c, cn, d, dn, p) => { got = s.be(p); return 0; } });
  s.e.wrapper_mstore_u32(0, 0);
  s.call('wrapper_create2', s.u256(0n), 0, 32, s.u256(salt), s.word()); check('salt', got, salt);
}
'''),
'S10-sload-cache': dict(property='C09', kind='std',
 edits=[('stdlib/chain.c','''void wrapper_sload_u256(bytes32 *slot_ptr, uint256_t *result) {
  uint8_t slot_value_bytes[32];
  storageLoad((ADDRESS_UINT)slot_ptr, (ADDRESS_UINT)&slot_value_bytes);
  u256_from_big_endian_bytes(slot_value_bytes, result);
}''','''void wrapper_sload_u256(bytes32 *slot_ptr, uint256_t *result) {
  uint8_t slot_value_bytes[32];
  if (last_slot_valid &&
      __memcmp(last_slot, 32, (uint8_t *)slot_ptr, 32)) {
    *result = last_slot_value;
    return;
  }
  storageLoad((ADDRESS_UINT)slot_ptr, (ADDRESS_UINT)&slot_value_bytes);
  u256_from_big_endian_bytes(slot_value_bytes, result);
  memcpy(last_slot, slot_ptr, 32);
  last_slot_value = *result;
  last_slot_valid = 1;
}'''),('stdlib/chain.c','''void wrapper_sstore_u256(uint256_t *slot_ptr, uint256_t *value_ptr) {
  uint256_t slot = *slot_ptr;''','''// The slot loaded last: contracts often read the slot they are about to write
static uint8_t last_slot[32];
static uint256_t last_slot_value = 0;
static BOOL last_slot_valid = 0;

void wrapper_sstore_u256(uint256_t *slot_ptr, uint256_t *value_ptr) {
  last_slot_valid = 0;
  uint256_t slot = *slot_ptr;''')],
 needs='a slot is read, then written through the byte-array store, then read again',
 breaks='sload returns the value the slot had before sstore: only one of the stores drops the remembered slot',
 demo='''
const s = open(), k = s.word(9n), r = s.u256();
s.e.wrapper_sload_u256(k, r); check('fresh', s.le(r), 0n);
s.e.wrapper_sstore_u256(s.u256(9n), s.u256(4n)); s.e.wrapper_sload_u256(k, r); check('after sstore', s.le(r), 4n);
s.e.wrapper_sstore_bytes32(k, s.word(6n)); s.e.wrapper_sload_u256(k, r); check('after byte-array sstore', s.le(r), 6n);
'''),
'S11-data-name': dict(property='C01', kind='fe',
 edits=[('src/yul.lalrpop','''s.trim_start_matches("data").trim_matches(' ').trim_matches('\\"').to_string()''','''s.replace("data", "").trim().trim_matches('\\"').to_string()''')],
 needs='a data segment whose name contains "data", such as .metadata',
 breaks='the segment gets another name (".meta"), so datasize and dataoffset of the written name find nothing',
 demo='''
    for name in ["abc", ".metadata", "x.y_1"] {
        let o = parse(&format!("object \\"A\\" {{ code {{ }} data \\"{name}\\" hex\\"0102\\" }}")).unwrap();
        let got = match &o.inner_segments[0] { yul2ir::ast::InnerSegment::Data(n, _) => n.clone(), _ => "?".into() };
        check("data segment name", &got, name);
    }
'''),
'S12-comment-slash': dict(property='C02', kind='fe',
 edits=[('src/yul2ir/utils.rs','''                    let mut prev = ' ';
''','''                    let mut prev = '*';
''')],
 needs='a block comment whose first character is a slash, such as a banner of slashes',
 breaks='the comment counts as closed by its second character: its text becomes code',
 demo='''
    for (s, want) in [("a /* x */ b", "a  b"), ("a /***/ b", "a  b"), ("a /*/ x */ b", "a  b"), ("/*//// banner ////*/ c", " c")] {
        check(s, &yul2ir::utils::remove_comments(s), want);
    }
'''),
'S13-unicode-escape': dict(property='C03', kind='fe',
 edits=[('src/yul2ir/utils.rs','''                        value = value * 16 + digit;''','''                        value = (value * 16 + digit) & 0x7fff;''')],
 needs='a \\\\u escape of 8000 or more in a string literal',
 breaks='the literal denotes another character (the top bit of the code is dropped)',
 demo='''
    for (src, want) in [("\\\\u{0041}", "A"), ("\\\\u{00E9}", "\\u{e9}"), ("\\\\u{20AC}", "\\u{20ac}"), ("\\\\u{FF21}", "\\u{ff21}")] {
        check(src, &yul2ir::utils::unescape_str(src).unwrap(), want);
    }
'''),
'S14-log-empty-topics': dict(property='C13', kind='std',
 edits=[('stdlib/chain.c','''                  bytes32 *topic1_ptr, bytes32 *topic2_ptr) {
  uint8_t *memory_ptr = evm_memory_range(data_evm_mem, data_size);
''','''                  bytes32 *topic1_ptr, bytes32 *topic2_ptr) {
  uint8_t *memory_ptr = evm_memory_range(data_evm_mem, data_size);
  if (__memcmp((uint8_t *)topic2_ptr, 32, (uint8_t *)topic1_ptr, 32)) {
    wrapper_log2(data_evm_mem, data_size, topic0_ptr, topic1_ptr);
    return;
  }
''')],
 needs='log3 whose second and third topic are equal (a transfer to oneself)',
 breaks='the event has two topics instead of three',
 demo='''
for (const t of [[1n, 2n, 3n], [1n, 1n, 3n], [7n, 5n, 5n]]) {
  const s = open(); s.call('wrapper_log3', 0, 4, ...t.map(x => s.word(x)));
  check('topics', s.log[0][1], t);
}
'''),
}
