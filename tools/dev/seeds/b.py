SEEDS={
'S15-mul-power-of-two': dict(property='C04', kind='yul',
 edits=[('src/yul2ir/instruction.rs','''                let result = self
                    .builder
                    .borrow_mut()
                    .build_int_mul(arg0, arg1, "mul_result")?;
''','''                // a multiplication by a power of two is a shift
                let power = args_exprs
                    .get(1)
                    .and_then(|expr| self.fetch_not_string_literal_constant(expr))
                    .filter(|value| value.low_u128().count_ones() == 1);
                let result = if let Some(power) = power {
                    let shift = power.low_u128().trailing_zeros() as u64;
                    self.builder.borrow_mut().build_left_shift(
                        arg0,
                        arg0.get_type().const_int(shift, false),
                        "mul_result",
                    )?
                } else {
                    self.builder
                        .borrow_mut()
                        .build_int_mul(arg0, arg1, "mul_result")?
                };
''')],
 needs='a multiplication by a literal that has exactly one bit set in its low 128 bits and others above',
 breaks='the upper half of the literal is ignored: mul(x, 2^128 + 1) gives x',
 demo='''
const src = contract('mstore(0, mul(calldataload(0), 0x100000000000000000000000000000001)) mstore(32, mul(calldataload(0), 8)) mstore(64, mul(calldataload(0), 3)) return(0, 96)');
for (const x of [5n, (1n << 130n) + 7n]) {
  const r = await run(src, { calldata: words(x) }), M = (1n << 256n) - 1n;
  check('products of ' + x, r.words, [x * ((1n << 128n) + 1n) & M, x * 8n & M, x * 3n & M]);
}
'''),
'S16-shr-selector': dict(property='C05', kind='yul',
 edits=[('src/yul2ir/instruction.rs','''                if dec.dec == "224" {
''','''                let bits: u64 = dec.dec.parse().unwrap_or(0);
                if (224..256).contains(&bits) {
'''),
 ('src/yul2ir/instruction.rs','''                                        return (
                                            Some(YulLowLevelValue {
                                                value_type: YulLowLevelValueType::I32,
                                                value: result,
                                            }),
                                            None,
                                        );
''','''                                        // larger shifts keep only the first bits of the selector
                                        let result = self
                                            .builder
                                            .borrow_mut()
                                            .build_right_shift(
                                                result.into_int_value(),
                                                self.i32_type().const_int(bits - 224, false),
                                                true,
                                                "selector",
                                            )
                                            .unwrap();
                                        return (
                                            Some(YulLowLevelValue {
                                                value_type: YulLowLevelValueType::I32,
                                                value: result.into(),
                                            }),
                                            None,
                                        );
''')],
 needs='shr(n, calldataload(0)) with a literal n from 225 to 255 and call data whose first bit is set',
 breaks='the shift keeps the sign: shr(248, calldataload(0)) of 0x80... gives 0xffffff80',
 demo='''
for (const n of [224, 240, 248, 255, 200]) for (const first of [0x12345678n, 0xa9059cbbn]) {
  const v = first << 224n | 77n, r = await run(contract(`mstore(0, shr(${n}, calldataload(0))) return(0, 32)`), { calldata: words(v) });
  check(`shr(${n}, 0x${first.toString(16)}...)`, r.words, [v >> BigInt(n)]);
}
'''),
'S17-continue-without-post': dict(property='C17', kind='yul',
 edits=[('src/yul2ir/transform.rs','''        self.push_control_flow_continue_bb(update_block);
''','''        // nothing to do between two rounds of a loop without a post block
        self.push_control_flow_continue_bb(if r#for.post_block.statements.is_empty() {
            body_block
        } else {
            update_block
        });
''')],
 needs='a for loop with an empty post block that is left by its condition after a continue',
 breaks='continue starts the next round without testing the condition',
 demo='''
const src = contract('let i := 0 let n := 0 for { } lt(i, 6) { } { i := add(i, 1) n := add(n, 10) if gt(i, 9) { break } if gt(i, 3) { continue } n := add(n, 1) } mstore(0, i) mstore(32, n) return(0, 64)');
check('a loop with continue and no post block', (await run(src)).words, [6n, 63n]);
check('a loop with continue and a post block', (await run(contract('let n := 0 for { let i := 0 } lt(i, 6) { i := add(i, 1) } { n := add(n, 10) if gt(i, 3) { continue } n := add(n, 1) } mstore(0, n) return(0, 32)'))).words, [64n]);
'''),
'S18-revert-nothing': dict(property='C18', kind='yul',
 edits=[('src/yul2ir/function_deduplicator.rs','''            return self.matches_constant_literal(&params[0], U256::from(0))
                && self.matches_constant_literal(&params[1], U256::from(0));
''','''            // without a size the offset does not matter
            return self.matches_constant_literal(&params[1], U256::from(0));
''')],
 needs='a function that only does revert(g(), 0), where evaluating g() ends the transaction in another way',
 breaks='the argument is not evaluated: the transaction reverts instead of returning what g returns',
 demo='''
const src = contract('if calldataload(0) { fail() } revert_now() function fail() { revert(done(), 0) } function revert_now() { revert(0, 0) } function done() -> r { sstore(1, 2) mstore(0, 42) return(0, 32) }');
const a = await run(src, { calldata: words(1n) });
check('the end of fail()', [a.kind, ...a.words], ['return', 42n]);
const b = await run(src, { calldata: words(0n) });
check('the end of revert_now()', [b.kind, b.data], ['revert', '']);
'''),
'S19-once-written': dict(property='C19', kind='yul',
 edits=[('src/yul2ir/transform.rs','''            _ => (
                self.default_primitive_type(),
                self.default_primitive_type_low_level(),
            ),
        };

        let llvm_var =''','''            Some(init_val)
                if self
                    .get_variable_usage(yul_func_name, &name)
                    .is_some_and(|usage| usage.writes == 1) =>
            {
                // only ever holds its initializer
                let ty = init_val.into_int_value().get_type();
                (ty.into(), YulLowLevelValueType::from_int_type(ty))
            }
            _ => (
                self.default_primitive_type(),
                self.default_primitive_type_low_level(),
            ),
        };

        let llvm_var ='''),
  ('src/yul2ir/usage.rs','''                self.analyze_block_usage(&for_stmt.init_block, usage_info); // Fixed: Direct call
                Self::analyze_expression_usage(&for_stmt.condition, usage_info); // Fixed: Direct call
                self.analyze_block_usage(&for_stmt.execution_block, usage_info); // Fixed: Direct call
                self.analyze_block_usage(&for_stmt.post_block, usage_info); // Fixed: Direct call
''','''                // the post block only steps the loop variable
                self.analyze_block_usage(&for_stmt.init_block, usage_info);
                Self::analyze_expression_usage(&for_stmt.condition, usage_info);
                self.analyze_block_usage(&for_stmt.execution_block, usage_info);
''')],
 needs='a variable in a function, initialized with a 32-bit result and written otherwise only in the post block of a loop, with a value of more than 32 bits',
 breaks='the variable keeps only the low 32 bits of the value assigned in the post block',
 demo='''
const src = contract('mstore(0, f(calldataload(0))) return(0, 32) function f(x) -> r { for { let i := lt(0, x) } lt(i, x) { i := mul(i, 0x100000) } { r := i } }');
check('the last i below 2^70', (await run(src, { calldata: words(1n << 70n) })).words, [1n << 60n]);
check('the last i below 2^30', (await run(src, { calldata: words(1n << 30n) })).words, [1n << 20n]);
'''),
'S20-minify-stack': dict(property='C20', kind='yul',
 edits=[('src/yul2ir/wasm.rs','''    if opts.minify_wasm_size {
        // when needed smallest wasm size, strip all debug info
        command_line.push(CString::new("--strip-all").unwrap());
    }
''','''    if opts.minify_wasm_size {
        // when needed smallest wasm size, strip all debug info and place the data early, so that
        // its addresses need fewer bytes
        command_line.push(CString::new("--strip-all").unwrap());
        command_line.push(CString::new("-z").unwrap());
        command_line.push(CString::new("stack-size=16384").unwrap());
    }
''')],
 needs='--minify-wasm-size and calls nested so deeply that they use more than three quarters of the 64 KiB stack',
 breaks='the stack still starts at 64 KiB, above the data now placed at 16 KiB: deep recursion overwrites the runtime state and the constants',
 demo='''
const src = contract('sstore(0x1234567890abcdef1234567890abcdef, f(calldataload(0))) mstore(0, 0xfeeddeadbeeffeeddeadbeeffeeddeadbeef) mstore(32, calldataload(0)) mstore(64, sload(0x1234567890abcdef1234567890abcdef)) return(0, 96) function f(n) -> r { let a := mul(n, n) let b := xor(n, 5) if n { r := f(sub(n, 1)) } mstore(300, addmod(a, b, 7)) r := add(add(r, addmod(a, b, 0xfeeddeadbeeffeeddeadbeeffeeddeadbeef)), mload(300)) }');
for (const n of [3n, 20n, 40n, 80n, 120n, 160n]) {
  const a = await run(src, { calldata: words(n) }, ''), b = await run(src, { calldata: words(n) }, 'minify');
  if (a.kind !== 'trap') check('depth ' + n, [b.kind, b.data, b.trace.join()], [a.kind, a.data, a.trace.join()]);
}
'''),
'S21-unchanged-output': dict(property='C21', kind='yul', layer='cli',
 edits=[('src/main.rs','''    std::fs::write(&contract_cbin_path, &contract_cbin_code).unwrap();
    let contract_cbin_code_hex = hex::encode(&contract_cbin_code);
''','''    // keep the time stamp of an output that does not change
    let unchanged = fs::metadata(&contract_cbin_path)
        .is_ok_and(|old| old.len() == contract_cbin_code.len() as u64);
    if !unchanged {
        std::fs::write(&contract_cbin_path, &contract_cbin_code).unwrap();
    }
    let contract_cbin_code_hex = hex::encode(&contract_cbin_code);
''')],
 needs='compiling to an output path where the .cbin of another contract with a module of the same size is left',
 breaks='the old .cbin stays: it holds another contract than the .wasm and the .cbin.hex',
 demo='''
const fs = require('fs'), os = require('os'), d = fs.mkdtempSync(os.tmpdir() + '/out');
try {
  for (const [k, v] of [[1, 11], [2, 12], [3, 13], [4, 12]]) {
    fs.writeFileSync(d + '/in.yul', contract(`mstore(0, ${v}) return(0, 32)`));
    const r = cli(d, ['--input', 'in.yul', '--output', 'o.wasm']);
    check('exit of compilation ' + k, r.status, 0);
    const wasm = fs.readFileSync(d + '/o.wasm'), cbin = fs.readFileSync(d + '/o.cbin');
    check('o.cbin of compilation ' + k, cbin.subarray(4).equals(wasm), true);
  }
} finally { fs.rmSync(d, { recursive: true }); }
'''),
'S22-switch-hash-order': dict(property='C24', kind='yul',
 edits=[('src/yul2ir/transform.rs','''let mut jump_tbl: IndexMap<IntValue<'a>, (BasicBlock, Block)> = IndexMap::default();''','''let mut jump_tbl: HashMap<IntValue<'a>, (BasicBlock, Block)> = HashMap::default();''')],
 needs='a switch with several cases, and hash seeds that give different orders',
 breaks='the order in which the cases are compiled, and with it the output, differs from run to run',
 demo='''
const src = contract('switch calldataload(0) ' + Array.from({ length: 12 }, (_, i) => `case ${i * 7} { let x := sload(${i}) sstore(${i}, add(x, mul(x, ${i}))) }`).join(' ') + ' default { revert(0, 0) }');
const first = (await compile(src)).ok;
for (let i = 0; i < 5; i++) check('compilation ' + i, Buffer.from((await compile(src)).ok).equals(Buffer.from(first)), true);
'''),
}
