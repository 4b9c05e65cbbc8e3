SEEDS={
'S23-mcopy-two-words': dict(property='C07', kind='yul',
 edits=[('src/yul2ir/instruction.rs','''                self.build_void_call(
                    "wrapper_mcopy",
                    &[evm_dst.into(), evm_src.into(), size.into()],
                )?;
''','''                if self.matches_constant_literal(&args_exprs[2], U256::from(64)) {
                    // two words are quicker to move than to copy
                    for offset in [0, 32] {
                        let offset = self.i32_type().const_int(offset, false);
                        let src =
                            self.builder
                                .borrow_mut()
                                .build_int_add(evm_src, offset, "")?;
                        let dst =
                            self.builder
                                .borrow_mut()
                                .build_int_add(evm_dst, offset, "")?;
                        let word = self.fast_alloca(self.bytes32_type(), "")?;
                        self.build_void_call("wrapper_mload_bytes32", &[src.into(), word.into()])?;
                        self.build_void_call("wrapper_mstore_bytes32", &[dst.into(), word.into()])?;
                    }
                } else {
                    self.build_void_call(
                        "wrapper_mcopy",
                        &[evm_dst.into(), evm_src.into(), size.into()],
                    )?;
                }
''')],
 needs='mcopy with the literal size 64 and a destination that starts inside the source',
 breaks='the second word is read after the first was written: mcopy(32, 0, 64) fills both words with the first',
 demo='''
for (const [to, from] of [[32, 0], [0, 32], [16, 0], [96, 0]]) {
  const r = await run(contract(`mstore(0, calldataload(0)) mstore(32, calldataload(32)) mcopy(${to}, ${from}, 64) return(0, 160)`), { calldata: words(0x1111n, 0x2222n) });
  const m = Buffer.alloc(160); m.set(toBE(0x1111n), 0); m.set(toBE(0x2222n), 32); m.copyWithin(to, from, from + 64);
  check(`memory after mcopy(${to}, ${from}, 64)`, r.bytes.toString('hex'), m.toString('hex'));
}
'''),
'S24-iszero-of-shift': dict(property='C05', kind='yul',
 edits=[('src/yul2ir/instruction.rs','''                check_args_count(&instr, &args, 1)?;
                let value = args.first().unwrap();
                if self.is_bytes32_value(value) || self.is_bytes32_pointer_value(value) {
                    let value_ptr = self.try_into_bytes32_pointer(value)?;
                    let result_bool_i32 =
''','''                check_args_count(&instr, &args, 1)?;
                let value = args.first().unwrap();
                // a word shifted right is zero if it is below the weight of the first bit kept
                if let Expression::FunctionCall(inner) = &args_exprs[0] {
                    if inner.id.name == "shr" {
                        if let (Some(amount), Expression::Identifier(_)) = (
                            self.fetch_not_string_literal_constant(&inner.arguments[0]),
                            &inner.arguments[1],
                        ) {
                            let word = self.walk_expr_with_type(
                                yul_func_name,
                                &inner.arguments[1],
                                ExpectedType::U256,
                            )?;
                            let word = self.try_into_u256(&word.get_value())?;
                            let one = self.u256_type().const_int(1, false);
                            let amount = self
                                .u256_type()
                                .const_int((amount & U256::from(255)).low_u64(), false);
                            let weight = self
                                .builder
                                .borrow_mut()
                                .build_left_shift(one, amount, "")?;
                            let below = self.builder.borrow_mut().build_int_compare(
                                IntPredicate::ULT,
                                word,
                                weight,
                                "",
                            )?;
                            let result = self.int_cast(below, self.i32_type())?;
                            return Ok(YulLowLevelValue {
                                value_type: YulLowLevelValueType::I32,
                                value: result.into(),
                            });
                        }
                    }
                }
                if self.is_bytes32_value(value) || self.is_bytes32_pointer_value(value) {
                    let value_ptr = self.try_into_bytes32_pointer(value)?;
                    let result_bool_i32 =
''')],
 needs='iszero(shr(n, v)) with a variable v and a literal n of 256 or more',
 breaks='only the low eight bits of the shift count: iszero(shr(256, v)) is 0 for v other than 0',
 demo='''
const src = contract('let v := calldataload(0) mstore(0, iszero(shr(256, v))) mstore(32, iszero(shr(8, v))) mstore(64, iszero(shr(300, v))) return(0, 96)');
for (const v of [0n, 5n, 256n, 1n << 255n]) check('zero after the shift of ' + v, (await run(src, { calldata: words(v) })).words, [1n, v >> 8n ? 0n : 1n, 1n]);
'''),
'S25-selector-short': dict(property='C08', kind='std',
 edits=[('stdlib/chain.c','''    uint32_t selector = 0;
    for (int i = 0; i < 4; i++) {
      selector = (selector << 8) | selector_bytes[i];
    }

    return selector;
''','''    uint32_t selector = 0;
    for (uint32_t i = 0; i < calldata_size; i++) {
      selector = (selector << 8) | selector_bytes[i];
    }

    return selector;
''')],
 needs='call data of one to three bytes',
 breaks='the bytes are taken as the low end of the selector',
 demo='''
for (const n of [0, 1, 2, 3, 4, 36]) {
  const s = open(); s.calldata = Uint8Array.from({ length: n }, (_, i) => 0xa1 + i);
  const b = new Uint8Array(4); b.set(s.calldata.slice(0, 4));
  check('selector of ' + n + ' bytes', s.call('wrapper_calldata_load_selector').v >>> 0, Number(fromBE(b)));
}
'''),
'S26-tstore-zero': dict(property='C09', kind='std',
 edits=[('stdlib/chain.c','''void wrapper_tstore_bytes32(bytes32 *slot_ptr, bytes32 *value_ptr) {
  transientStore(''','''void wrapper_tstore_bytes32(bytes32 *slot_ptr, bytes32 *value_ptr) {
  // Transient storage starts out empty: nothing to clear before the first
  // value is stored
  static BOOL any_stored = 0;
  uint64_t *value = (uint64_t *)value_ptr;
  if ((value[0] | value[1] | value[2] | value[3]) != 0) {
    any_stored = 1;
  } else if (!any_stored) {
    return;
  }
  transientStore(''')],
 needs='a second call of the contract in one transaction that clears a slot the first call set and stores nothing else before',
 breaks='the slot keeps its value',
 demo='''
const s = open(); s.transient.set(7n, 5n);
s.call('wrapper_tstore_bytes32', s.word(7n), s.word(0n));
check('the slot after clearing it', s.transient.get(7n), 0n);
s.call('wrapper_tstore_bytes32', s.word(8n), s.word(9n)); s.call('wrapper_tstore_bytes32', s.word(8n), s.word(0n));
check('another slot', s.transient.get(8n), 0n);
'''),
'S27-immutable-leading-zeros': dict(property='C10', kind='yul',
 edits=[('src/yul2ir/instruction.rs','''            YulInstructionName::LoadImmutable => {
                assert_eq!(args_exprs.len(), 1);
                let name = self
                    .read_string_literal(&args_exprs[0])
                    .expect("immutable name is empty");
''','''            YulInstructionName::LoadImmutable => {
                assert_eq!(args_exprs.len(), 1);
                let name = self
                    .read_string_literal(&args_exprs[0])
                    .expect("immutable name is empty");
                // solc names immutables by their number in the syntax tree
                let name = name.trim_start_matches('0').to_string();
'''),('src/yul2ir/instruction.rs','''                let name = self
                    .read_string_literal(&args_exprs[1])
                    .expect("immutable name is empty");
''','''                let name = self
                    .read_string_literal(&args_exprs[1])
                    .expect("immutable name is empty");
                let name = name.trim_start_matches('0').to_string();
''')],
 needs='two immutables whose names differ only in leading zeros',
 breaks='they share one value, and setting the second reverts',
 demo='''
const src = n => `object "T" { code { setimmutable(0, "${n}", 11) setimmutable(0, "7", 22) mstore(0, loadimmutable("${n}")) mstore(32, loadimmutable("7")) return(0, 64) } }`;
for (const n of ['07', '70', '8']) check('immutables ' + n + ' and 7', (await run(src(n), {}, '', 'deploy')).words, [11n, 22n]);
'''),
'S28-returndatasize-kept': dict(property='C11', kind='std',
 edits=[('stdlib/chain.c','''uint32_t wrapper_returndata_size() { return (uint32_t)getReturnDataSize(); }
''','''// the size of the data the last call returned, -1 if not known
static int32_t last_returndata_size = -1;

uint32_t wrapper_returndata_size() {
  if (last_returndata_size < 0) {
    last_returndata_size = getReturnDataSize();
  }
  return (uint32_t)last_returndata_size;
}
'''),('stdlib/chain.c','''#include "utils.h"

static void u256_to''','''#include "utils.h"

static int32_t last_returndata_size;

static void u256_to'''),
 ('stdlib/chain.c','''  if (call_status == 2) {
    revert((ADDRESS_UINT) "call contract failed", 20);
''','''  last_returndata_size = -1;
  if (call_status == 2) {
    revert((ADDRESS_UINT) "call contract failed", 20);
''')],
 needs='a call with return data, returndatasize, then a failing call to a precompile, then returndatasize',
 breaks='returndatasize still gives the size for the first call',
 demo='''
let n = 0;
const s = open({ callContract: s => { n++; s.returndata = n === 1 ? new Uint8Array(64) : new Uint8Array(0); return n === 1 ? 0 : 1; } });
const call = a => s.call('wrapper_call_contract', 1000n, s.word(a), s.u256(0n), 0, 0, 0, 0).v;
check('the first call', [call(0x1234n), s.call('wrapper_returndata_size').v], [1, 64]);
check('the failing precompile', [call(6n), s.call('wrapper_returndata_size').v], [0, 0]);
'''),
'S29-deployed-suffix': dict(property='C12', kind='yul',
 edits=[('src/yul2ir/transform.rs','''                    let is_same_object = format!("{}_deployed", object.name) == inner_object.name;
''','''                    let is_same_object = inner_object.name.ends_with("_deployed");
''')],
 needs='an object whose name ends in _deployed inside an object that it is not the runtime of',
 breaks='the data of the object is empty: the contract created from it has no code',
 demo='''
const src = contract('mstore(0, datasize("Other_deployed")) mstore(32, datasize("Plain")) return(0, 64)', 'object "Other_deployed" { code { stop() } } object "Plain" { code { stop() } }');
const r = await run(src);
check('both objects have code', r.words.map(x => x > 100n), [true, true]);
'''),
'S30-keccak-kept': dict(property='C13', kind='std',
 edits=[('stdlib/chain.c','''  uint8_t *memory_ptr = evm_memory_range(evm_mem, size);
  keccak256((ADDRESS_UINT)memory_ptr, size, (ADDRESS_UINT)result);
''','''  uint8_t *memory_ptr = evm_memory_range(evm_mem, size);
  // The slot of a mapping is often computed twice in a row, for a load and then
  // for a store: keep the last key, slot number and hash
  static uint8_t last_key[32];
  static uint32_t last_slot = 0;
  static BOOL known = 0;
  static bytes32 last_hash;
  if (size == 64) {
    uint32_t slot = 0;
    for (int i = 60; i < 64; i++) {
      slot = (slot << 8) | memory_ptr[i];
    }
    BOOL same = known && slot == last_slot;
    for (int i = 0; same && i < 32; i++) {
      same = memory_ptr[i] == last_key[i];
    }
    if (same) {
      memcpy(result, &last_hash, 32);
      return;
    }
    keccak256((ADDRESS_UINT)memory_ptr, size, (ADDRESS_UINT)result);
    memcpy(last_key, memory_ptr, 32);
    memcpy(&last_hash, result, 32);
    last_slot = slot;
    known = 1;
    return;
  }
  keccak256((ADDRESS_UINT)memory_ptr, size, (ADDRESS_UINT)result);
''')],
 needs='two hashes of 64 bytes in a row whose second words differ only above the low 32 bits (a mapping inside a mapping)',
 breaks='the second hash is the first one again',
 demo='''
const s = open(), r = s.word();
const hash = (a, b) => { s.call('wrapper_mstore_bytes32', 0, s.word(a)); s.call('wrapper_mstore_bytes32', 32, s.word(b)); s.call('wrapper_keccak256', 0, 64, r); return s.be(r); };
const want = (a, b) => { const m = new Uint8Array(64); m.set(toBE(a)); m.set(toBE(b), 32); return fromBE(require('crypto').createHash('sha256').update(m).digest()); };
for (const [a, b] of [[1n, 2n], [1n, 2n], [1n, 3n], [2n, 3n], [2n, (9n << 200n) + 3n], [2n, 3n]]) check(`hash of ${a}, ${b}`, hash(a, b), want(a, b));
'''),
'S31-self-balance-kept': dict(property='C14', kind='std',
 edits=[('stdlib/chain.c','''  uint8_t addr_bytes[20] = {0};
  getAddress((ADDRESS_UINT)&addr_bytes);
  uint8_t result_bytes[32];
  getExternalBalance((ADDRESS_UINT)&addr_bytes, (ADDRESS_UINT)&result_bytes);
  u256_from_big_endian_bytes(result_bytes, result);
''','''  // the balance includes the value of the call from the start
  static uint8_t result_bytes[32];
  static BOOL known = 0;
  if (!known) {
    uint8_t addr_bytes[20] = {0};
    getAddress((ADDRESS_UINT)&addr_bytes);
    getExternalBalance((ADDRESS_UINT)&addr_bytes, (ADDRESS_UINT)&result_bytes);
    known = 1;
  }
  u256_from_big_endian_bytes(result_bytes, result);
''')],
 needs='selfbalance, then a call that sends value away, then selfbalance again',
 breaks='the second selfbalance gives the balance from before the call',
 demo='''
let b = 100n;
const s = open({ getExternalBalance: (s, a, p) => s.wr(p, toBE(b)), callContract: () => { b -= 30n; return 0; } }), r = s.u256();
const bal = () => { s.call('wrapper_self_balance', r); return s.le(r); };
check('before the call', bal(), 100n);
s.call('wrapper_call_contract', 1000n, s.word(0x1234n), s.u256(30n), 0, 0, 0, 0);
check('after the call', bal(), 70n);
'''),
'S32-slot-extra-base': dict(property='C15', kind='std',
 edits=[('stdlib/chain.c','''    __builtin_wasm_memory_grow(0, 1);
    uint32_t after_pages = __builtin_wasm_memory_size(0);
    if (after_pages == before_pages) {
      __abort("wasm memory grow failed");
    }
    extra_memory_alloca_bytes32_memory_end =
''','''    if (evm_accessed_memory_size() < before_pages * WASM_PAGE_SIZE / 2) {
      __builtin_wasm_memory_grow(0, 1);
    }
    uint32_t after_pages = __builtin_wasm_memory_size(0);
    extra_memory_alloca_bytes32_memory_end =
''')],
 needs='skip', breaks='skip', demo=''),
'S33-transfer-nothing': dict(property='C16', kind='std',
 edits=[('stdlib/chain.c','''  // The original Yul code had redundant hash calculations, but this step is
  // unnecessary

''','''  // The original Yul code had redundant hash calculations, but this step is
  // unnecessary

  // A transfer of nothing leaves the balances as they are: only the event
  // remains. The amount is written as an address so that the same helper works.
  if (is_zero_address(((uint8_t *)var_value) + 12)) {
    static const uint8_t topic[32] = {
        0xdd, 0xf2, 0x52, 0xad, 0x1b, 0xe2, 0xc8, 0x9b, 0x69, 0xc2, 0xb0,
        0x68, 0xfc, 0x37, 0x8d, 0xaa, 0x95, 0x2b, 0xa7, 0xf1, 0x63, 0xc4,
        0xa1, 0x16, 0x28, 0xf5, 0x5a, 0x4d, 0xf5, 0x23, 0xb3, 0xef};
    emitLogEvent((ADDRESS_UINT)var_value, 32, 3, (ADDRESS_UINT)topic,
                 (ADDRESS_UINT)from, (ADDRESS_UINT)to, 0);
    return;
  }
''')],
 needs='a transfer of an amount that is a multiple of 2^160 and not 0',
 breaks='the event is emitted and no balance changes',
 demo='''
const key = a => { const m = new Uint8Array(64); m.set(toBE(a)); return fromBE(require('crypto').createHash('sha256').update(m).digest()); };
for (const v of [0n, 5n, 1n << 160n, (1n << 160n) + 1n]) {
  const s = open(); s.storage.set(key(1n), 1n << 200n); s.storage.set(key(2n), 3n);
  s.call('wrapper_optimized_erc20_fun_transfer', s.word(1n), s.word(2n), s.word(v));
  check('balances after a transfer of ' + v, [s.storage.get(key(1n)), s.storage.get(key(2n))], [(1n << 200n) - v, 3n + v]);
  check('event', s.log.length, 1);
}
'''),
'S34-if-literal': dict(property='C17', kind='yul',
 edits=[('src/yul2ir/transform.rs','''        // For conditions, we prefer boolean (i32) results
        let cond_value = self.walk_expr_with_type(yul_func_name, &r#if.cond, ExpectedType::Bool)?;
''','''        // A block under a condition that is always false needs no code
        if self
            .fetch_not_string_literal_constant(&r#if.cond)
            .is_some_and(|cond| cond.low_u64() == 0)
        {
            return self.ok_result();
        }
        // For conditions, we prefer boolean (i32) results
        let cond_value = self.walk_expr_with_type(yul_func_name, &r#if.cond, ExpectedType::Bool)?;
''')],
 needs='an if whose condition is a literal that is a multiple of 2^64 and not 0',
 breaks='the body is never run',
 demo='''
for (const c of ['0', '1', '0x100000000', '0x10000000000000000', '0x8000000000000000000000000000000000000000000000000000000000000000'])
  check('if ' + c, (await run(contract(`let r := 1 if ${c} { r := 2 } mstore(0, r) return(0, 32)`))).words, [BigInt(c) ? 2n : 1n]);
'''),
'S35-same-argument': dict(property='C18', kind='yul',
 edits=[('src/yul2ir/instruction.rs','''        let mut args: Vec<YulLowLevelValue<'a>> = args_exprs
            .iter()
            .enumerate()
            .rev()
            .map(|(i, arg)| {
''','''        // A storage load that occurs twice among the arguments is done once
        let mut loads: Vec<(String, ExpectedType, YulLowLevelValue<'a>)> = vec![];
        let mut args: Vec<YulLowLevelValue<'a>> = args_exprs
            .iter()
            .enumerate()
            .rev()
            .map(|(i, arg)| {
                if let Expression::FunctionCall(call) = arg {
                    if call.id.name == "sload" && matches!(call.arguments[0], Expression::Literal(_)) {
                        let expected = arg_expected_types.get(i).copied().unwrap_or(ExpectedType::Untyped);
                        let key = format!("{:?}", call.arguments[0]);
                        if let Some(known) = loads.iter().find(|load| load.0 == key && load.1 == expected) {
                            return known.2.clone();
                        }
                        let value = self.walk_expr_with_type(yul_func_name, arg, expected).unwrap();
                        loads.push((key, expected, value.clone()));
                        return value;
                    }
                }
''')],
 needs='two equal sload arguments of one call with an argument between them that stores to the slot',
 breaks='the first one is not loaded again and misses the store',
 demo='''
const src = contract('sstore(0x5, 10) mstore(0, f(sload(0x5), g(), sload(0x5))) mstore(32, add(sload(0x5), sload(0x5))) return(0, 64) function f(a, b, c) -> r { r := add(mul(a, 10000), add(mul(b, 100), c)) } function g() -> r { sstore(0x5, 77) r := 1 }');
check('arguments around a store', (await run(src)).words, [770110n, 154n]);
'''),
'S36-cbin-path': dict(property='C21', kind='yul', layer='cli',
 edits=[('src/main.rs','''    let contract_cbin_path = Path::new(&args.output).with_extension("cbin");
''','''    let contract_cbin_path =
        std::path::PathBuf::from(args.output.replacen(".wasm", ".cbin", 1));
''')],
 needs='an output path with .wasm in the name of a folder',
 breaks='the .cbin is written to another folder, or the tool panics because there is none',
 demo='''
const fs = require('fs'), path = require('path'), os = require('os');
const d = fs.mkdtempSync(path.join(os.tmpdir(), 'seed'));
try {
  fs.writeFileSync(d + '/a.yul', contract('stop()'));
  for (const o of ['x.wasm', 'out/x.wasm', 'my.wasm.d/x.wasm']) {
    fs.mkdirSync(path.dirname(path.join(d, o)), { recursive: true });
    const r = cli(d, ['--input', 'a.yul', '--output', o]);
    check(o + ' exit', r.status, 0);
    const w = fs.readFileSync(path.join(d, o)), n = Buffer.alloc(4); n.writeUInt32BE(w.length);
    check(o + ' cbin', fs.existsSync(path.join(d, o.replace(/[.]wasm$/, '.cbin'))) && fs.readFileSync(path.join(d, o.replace(/[.]wasm$/, '.cbin'))).equals(Buffer.concat([n, w])), true);
  }
} finally { fs.rmSync(d, { recursive: true, force: true }); }
'''),
'S37-compiler-output': dict(property='C23', kind='sh',
 edits=[('tools/build_utils.sh','''    $YUL2WASM_PATH --input $YUL_IR_PATH/$contract.sol/$contract.iropt \\
                   --output $YUL_IR_PATH/$contract.wasm \\
                   $YUL2WASM_EXTRA_ARGS
''','''    # show what the compiler prints under the name of the contract
    local output=$($YUL2WASM_PATH --input $YUL_IR_PATH/$contract.sol/$contract.iropt \\
                   --output $YUL_IR_PATH/$contract.wasm \\
                   $YUL2WASM_EXTRA_ARGS)
    echo "$contract: $output"
''')],
 needs='a compiler that fails while the .wasm of an earlier build is still there',
 breaks='the script reports success for the old file and goes on with exit status 0',
 demo='''
#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
mkdir -p "$D/bin" "$D/ir/A.sol"
printf '#!/bin/sh\\nexit 0\\n' > "$D/bin/wasm2wat"
printf '#!/bin/sh\\nexit ${FAIL:-0}\\n' > "$D/bin/yul2wasm"
chmod +x "$D/bin/wasm2wat" "$D/bin/yul2wasm"
echo old > "$D/ir/A.wasm"
cat > "$D/t.sh" <<X
source "$PWD/tools/build_utils.sh"
YUL2WASM_PATH="$D/bin/yul2wasm"; YUL2WASM_EXTRA_ARGS=""
compile_contract A "$D/ir"
X
PATH="$D/bin:$PATH" FAIL=0 bash "$D/t.sh" || { echo "a compiler that works is reported as failing"; exit 1; }
PATH="$D/bin:$PATH" FAIL=3 bash "$D/t.sh" && { echo "a failing compiler is reported as success"; exit 1; }
exit 0
'''),
}
del SEEDS['S32-slot-extra-base']
