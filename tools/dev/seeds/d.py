SEEDS={
'S38-comment-bytes': dict(property='C02', kind='fe',
 edits=[('src/yul2ir/utils.rs','''    let mut chars = code.chars().peekable();''','''    // everything that matters here is a single byte
    let mut chars = code.bytes().map(char::from).peekable();''')],
 needs='a character beyond ASCII in a string literal',
 breaks='each byte of the character becomes a character of its own',
 demo='''
    for (s, want) in [("a \\"x\\" // b\\nc", "a \\"x\\" \\nc"), ("\\"\\u{e9}\\" /* \\u{20ac} */", "\\"\\u{e9}\\" "), ("\\"\\u{1f600}\\"", "\\"\\u{1f600}\\"")] {
        check(&format!("{s:?}"), &yul2ir::utils::remove_comments(s), want);
    }
'''),
'S39-ten-digits': dict(property='C03', kind='yul',
 edits=[('src/yul2ir/context.rs','''                if value.len() <= 9 {
                    self.i32_type()''','''                // ten digits are the most that 32 bits can take
                if value.len() <= 10 {
                    self.i32_type()''')],
 needs='a decimal literal of ten digits above 2^32 - 1 where 32 bits are expected, such as a memory offset',
 breaks='the literal is taken modulo 2^32: mload(4294967328) reads offset 32 instead of failing',
 demo='''
for (const [o, ok] of [['32', true], ['999999999', false], ['4294967328', false], ['9999999999', false]]) {
  const r = await run(contract(`mstore(32, 7) let x := mload(${o}) mstore(0, x) return(0, 32)`));
  check('mload(' + o + ') succeeds', r.kind === 'return', ok);
}
'''),
'S40-client-failure': dict(property='C23', kind='sh',
 edits=[('tools/forge_test_utils.sh','''    ABI_DATA=$($ABI_ENCODE "$function_name")
    output=$($MOCKCLI_PATH''','''    ABI_DATA=$($ABI_ENCODE "$function_name")
    local output=$($MOCKCLI_PATH''')],
 needs='a client that fails after it has printed the expected output',
 breaks='the exit status of the client is lost: the call counts as passed',
 demo='''
#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
mkdir -p "$D/bin" "$D/examples/x" "$D/examples/scripts"
cp examples/scripts/common.sh "$D/examples/scripts/"
printf '#!/bin/sh\\necho 12345678\\n' > "$D/bin/abi"
printf '#!/bin/sh\\necho evm finish with result hex:01\\nexit ${FAIL:-0}\\n' > "$D/bin/client"
chmod +x "$D/bin/abi" "$D/bin/client"
cat > "$D/t.sh" <<X
source "$PWD/tools/forge_test_utils.sh"
MOCKCLI_PATH="$D/bin/client"; ABI_ENCODE="$D/bin/abi"
call_contract_function a.wasm 0x01 'f()' 'result hex:01'
X
mkdir "$D/x"; cd "$D/x" || exit 9
FAIL=0 bash "$D/t.sh" > "$D/o" 2>&1 || { cat "$D/o"; echo "FAIL: a successful call is refused"; exit 1; }
FAIL=3 bash "$D/t.sh" > "$D/o" 2>&1 && { cat "$D/o"; echo "FAIL: a failed call passes"; exit 1; }
exit 0
'''),
'S41-hex-tail': dict(property='C21', kind='yul', layer='cli',
 edits=[('src/main.rs','''    std::fs::write(&contract_cbin_hex_path, contract_cbin_code_hex).unwrap();
''','''    // written through one handle, without a rewrite of the file's entry
    let mut contract_cbin_hex = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(&contract_cbin_hex_path)
        .unwrap();
    std::io::Write::write_all(&mut contract_cbin_hex, contract_cbin_code_hex.as_bytes()).unwrap();
''')],
 needs='compiling to an output path where a longer .cbin.hex was left',
 breaks='the tail of the old .cbin.hex stays behind the new contract',
 demo='''
const fs = require('fs'), os = require('os'), d = fs.mkdtempSync(os.tmpdir() + '/out');
try {
  for (const n of [1, 40, 2]) {
    fs.writeFileSync(d + '/in.yul', contract(Array.from({ length: n }, (_, i) => `sstore(${i}, mul(calldataload(${i}), ${i + 3}))`).join(' ')));
    const r = cli(d, ['--input', 'in.yul', '--output', 'o.wasm']);
    check('exit of compilation ' + n, r.status, 0);
    check('o.cbin.hex of compilation ' + n, fs.readFileSync(d + '/o.cbin.hex', 'latin1'), fs.readFileSync(d + '/o.cbin').toString('hex'));
  }
} finally { fs.rmSync(d, { recursive: true }); }
'''),
'S42-library-in-loop': dict(property='C19', kind='yul',
 edits=[('src/yul2ir/usage.rs','''                self.analyze_block_usage(&for_stmt.execution_block, usage_info); // Fixed: Direct call
                self.analyze_block_usage(&for_stmt.post_block, usage_info); // Fixed: Direct call
''','''                self.analyze_block_usage(&for_stmt.execution_block, usage_info); // Fixed: Direct call
''')],
 needs='a variable that holds a library address and is read only in the update part of a loop',
 breaks='the address is taken for unused: the compilation fails, or the variable is gone',
 demo='''
const src = contract(`function f() -> r { let a := linkersymbol("l.sol:L") for { let i := 0 } lt(i, 3) { i := add(i, 1) r := add(r, a) } { } } mstore(0, f()) return(0, 32)`);
const r = await run(src, {}, `sym=${Buffer.from('l.sol:L').toString('hex')}:${Buffer.from('0x00000000000000000000000000000000000000ab').toString('hex')}`);
check('result', r.kind === 'return' && BigInt('0x' + r.bytes.toString('hex')), 3n * 0xabn);
'''),
'S43-constant-name': dict(property='C07', kind='yul',
 edits=[('src/yul2ir/instruction.rs','''                    let bytes32_global_var = self.add_global_constant_bytes32(
                        &constant_bytes32,
                        &format!("global_constant_bytes32_{}", value),
                    );
                    let bytes32_global_ptr = bytes32_global_var.as_pointer_value();
                    self.build_void_call(
                        "wrapper_mstore_bytes32",
                        &[evm_mem, bytes32_global_ptr.into()],''','''                    // one global for each constant of the contract
                    let name = format!("global_constant_bytes32_{}", value.low_u128());
                    let kept = self.llvm_module.borrow().get_global(&name);
                    let bytes32_global_var = match kept {
                        Some(kept) => kept,
                        None => self.add_global_constant_bytes32(&constant_bytes32, &name),
                    };
                    let bytes32_global_ptr = bytes32_global_var.as_pointer_value();
                    self.build_void_call(
                        "wrapper_mstore_bytes32",
                        &[evm_mem, bytes32_global_ptr.into()],''')],
 needs='two literals stored to memory in one contract that agree in their low 16 bytes',
 breaks='the second store writes the first literal',
 demo='''
const lits = [1n << 255n, 1n << 200n, (1n << 130n) | 5n, (1n << 131n) | 5n, (1n << 64n) | 9n];
const r = await run(contract(lits.map((l, i) => `mstore(${32 * i}, 0x${l.toString(16)})`).join(' ') + ` return(0, ${32 * lits.length})`));
check('memory', r.bytes.toString('hex'), lits.map(l => l.toString(16).padStart(64, '0')).join(''));
'''),
'S45-single-statement-block': dict(property='C01', kind='fe',
 edits=[('src/yul.lalrpop','''    <Block> => ast::Statement::Block(Box::new(<>)),
''','''    <block: Block> => {
        // a block around a single loop or branch opens no scope of its own
        let mut block = block;
        match block.statements.as_slice() {
            [ast::Statement::If(_) | ast::Statement::For(_) | ast::Statement::Switch(_) | ast::Statement::VariableDeclaration(_)] => block.statements.remove(0),
            _ => ast::Statement::Block(Box::new(block)),
        }
    },
''')],
 needs='a block whose only statement declares a variable',
 breaks='the variable is declared in the scope around the block, so a second declaration of the name replaces or clashes with it',
 demo='''
    use yul2ir::ast::Statement as S;
    for (src, want) in [("let x := 1", "let"), ("{ let x := 1 }", "block"), ("{ let x := 1 let y := 2 }", "block"), ("{ x := 1 }", "block"), ("{ }", "block")] {
        let o = parse(&format!("object \\"A\\" {{ code {{ {src} }} }}")).unwrap();
        let got = match &o.code.statements[0] { S::Block(_) => "block", S::VariableDeclaration(_) => "let", _ => "other" };
        check(src, got, want);
    }
'''),
}
