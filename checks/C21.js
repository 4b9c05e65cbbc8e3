'use strict';
// C21: the command line tool itself (the real main.rs, built with the project's own dependencies replaced only by the
// LLVM binding shim), run as a process: every combination of the documented options, every output path form, every linker
// symbol assignment, every fault of the lists. After each run the exit status and the complete content of the scratch
// directory are compared with the model: exactly the promised files, agreeing with each other, and the module run on the
// host model in both entry points.
const fs = require('fs'), path = require('path'), cp = require('child_process');
const { World, runWasm } = require('../lib/host');
const { toBE, H, hex } = require('../lib/u256');
const { product } = require('../lib/clayer');
const C = require('../lib/contract');
const { Ref, parse } = require('../lib/yulref');
const ROOT = path.resolve(__dirname, '..'), BIN = path.join(ROOT, '.build/target/debug/yul2wasm');

// ---- contracts: deploy and runtime code, and the symbols they need --------------------------------------------------
const CON = {
  plain: { name: 'T', dep: 'sstore(0, add(1, callvalue())) return(0, 0)', run: 'let x := calldataload(0) sstore(x, add(sload(x), 3)) mstore(0, mul(x, x)) log1(0, 32, x) return(0, 32)' },
  twin: { name: 'T', dep: 'sstore(0, add(1, callvalue())) return(0, 0)', run: 'let x := calldataload(0) sstore(x, add(sload(x), 4)) mstore(0, mul(x, x)) log1(0, 32, x) return(0, 32)' }, // as long as plain
  funs: { name: 'Token', dep: 'mstore(0, f(7)) return(0, 32) function f(a) -> r { r := mul(a, a) }', run: 'mstore(0, g(calldataload(0), 2)) return(0, 32) function g(a, b) -> r { r := b for { } a { a := shr(1, a) } { r := add(mul(r, 3), and(a, 1)) } }' },
  reverts: { name: 'R_12', dep: 'if callvalue() { revert(0, 4) } return(0, 0)', run: 'if iszero(calldataload(0)) { mstore(0, 77) revert(0, 32) } stop()' },
  only: { name: 'Solo', dep: 'mstore(0, 5) return(0, 32)', run: null },
  empty: { name: 'E', dep: '', run: '' },
  child: { name: 'P', dep: 'return(0, 0)', run: 'let s := datasize("P") let c := datasize("P.D") codecopy(0, dataoffset("D"), datasize("D")) mstore(128, 9) return(0, 160)', parts: 'data "D" hex"0102030405"', ref: 'mstore(0, 0x0102030405000000000000000000000000000000000000000000000000000000) mstore(128, 9) return(0, 160)', fixed: 'codecopy(0, dataoffset("D"), datasize("D")) mstore(128, 9) return(0, 160)' },
};
CON.child.run = CON.child.fixed;
const source = c => `object "${c.name}" { code { ${c.dep} } ${c.run === null ? '' : `object "${c.name}_deployed" { code { ${c.run} } ${c.parts || ''} }`} }`;

// ---- one run ----------------------------------------------------------------------------------------------------------
let seq = 0;
const BASE = path.join(ROOT, '.build', 'c21');
function scratch() { const d = path.join(BASE, `${process.pid}-${seq++}`); fs.mkdirSync(d, { recursive: true }); return d; }
function tree(d, rel = '', out = {}) { // every file with its content
  for (const e of fs.readdirSync(path.join(d, rel), { withFileTypes: true })) {
    const p = rel ? rel + '/' + e.name : e.name;
    if (e.isDirectory()) { out[p + '/'] = ''; tree(d, p, out); } else if (e.isSymbolicLink()) out[p] = '-> ' + fs.readlinkSync(path.join(d, p)); else out[p] = fs.readFileSync(path.join(d, p)).toString('latin1');
  }
  return out;
}
function cli(dir, args, env = {}) {
  const r = cp.spawnSync(BIN, args, { timeout: 90e3, killSignal: 'SIGKILL', cwd: dir, stdio: ['ignore', 'pipe', 'pipe'], env: { PATH: '/usr/local/bin:/usr/bin:/bin', HOME: dir, RUST_BACKTRACE: '0', TMPDIR: '/tmp', CHAIN_IR_CLANG_RT_LIB_DIR: path.join(ROOT, '.build/rt'), ...env }, maxBuffer: 1 << 26 });
  return { code: r.status, sig: r.signal, out: r.stdout.toString(), err: r.stderr.toString() };
}
const tail = r => (r.err.trim().split('\n').pop() || '').slice(0, 200);
// the module as a contract, against the reference interpreter
function behaves(bytes, c, linker = {}) {
  let mod;
  try { mod = new WebAssembly.Module(bytes); } catch (e) { return `the module does not load: ${e.message}`; }
  const ex = WebAssembly.Module.exports(mod).filter(e => e.kind === 'function').map(e => e.name);
  for (const e of c.run === null ? ['deploy'] : ['deploy', 'call']) if (!ex.includes(e)) return `the module has no function ${e}, only ${ex.slice(0, 10)}`;
  for (const [e, code] of [['deploy', c.dep], ['call', c.run === null ? null : c.ref || c.run]]) {
    if (code === null) continue;
    for (const cd of [new Uint8Array(0), toBE(0n), toBE(5n), toBE(1n << 255n)]) for (const cv of [0n, 1n]) {
      const mk = () => new World({ calldata: cd, callvalue: cv, storage: new Map([[5n, 40n]]) });
      const w1 = mk(), w2 = mk();
      const got = C.norm(runWasm(mod, e, w1)), want = new Ref(w2, { linker }).run(parse(code));
      if (got.kind === 'trap' && want.kind === 'trap') continue;
      const a = C.show(got, w1), b = C.show(want, w2);
      if (a !== b) return `${e}(${H(cd)}), value ${cv}: expected ${b}, got ${a} ${got.why || ''}`;
    }
  }
  return null;
}
// expected: exactly the three files beside what was there
function succeeded(rep, job, key, dir, before, r, out, c, o = {}) {
  const fail = w => rep.viol(key, w, { ...job, only: key });
  rep.state(); rep.step(); rep.trace();
  if (r.code !== 0) return fail(`exits ${r.code ?? r.sig}: ${tail(r)}`);
  const after = tree(dir), base = out.replace(/^\.\//, ''), stem = base.replace(/(?<=[^/])\.[^./]*$/, '');
  const names = [base, stem + '.cbin', stem + '.cbin.hex'];
  for (const n of names) if (after[n] === undefined) return fail(`left no ${n}; there are ${Object.keys(after)}`);
  for (const n of Object.keys(before)) if (after[n] !== before[n] && !names.includes(n)) return fail(`changed ${n}`);
  for (const n of Object.keys(after)) {
    if (before[n] !== undefined || names.includes(n) || names.some(x => x.startsWith(n) && n.endsWith('/'))) continue;
    if (o.verbose && /\.out\.(ll|s)$/.test(n) || o.sub && o.sub(n)) continue;
    return fail(`left an unexpected ${n}`);
  }
  const wasm = Buffer.from(after[names[0]], 'latin1'), cbin = Buffer.from(after[names[1]], 'latin1');
  const len = Buffer.alloc(4); len.writeUInt32BE(wasm.length);
  if (!cbin.equals(Buffer.concat([len, wasm]))) return fail(`the .cbin (${cbin.length} bytes, ${cbin.subarray(0, 8).toString('hex')}…) is not the length and the ${wasm.length} bytes of the module`);
  if (after[names[2]] !== cbin.toString('hex')) return fail('the .cbin.hex is not the lower-case hex of the .cbin');
  const b = behaves(wasm, c, o.linker);
  if (b) return fail(b);
  if (o.le !== undefined) { // documented switch: which host functions storage goes through
    const imp = WebAssembly.Module.imports(new WebAssembly.Module(wasm)).map(i => i.name);
    if (!o.le && imp.some(n => /LittleEndian/.test(n))) return fail('uses little endian storage although it was not asked for');
  }
  rep.cls('success'); if (o.sample) rep.sample(key);
  return wasm;
}
function failed(rep, job, key, dir, before, r, o = {}) {
  const fail = w => rep.viol(key, w, { ...job, only: key });
  rep.state(); rep.step(); rep.trace();
  if (r.code === 0) return fail('exits 0');
  if (r.code === null) return fail(`dies of ${r.sig}`);
  const after = tree(dir);
  for (const n of Object.keys(after)) if (after[n] !== before[n] && !n.endsWith('/') && !(o.sub && o.sub(n))) return fail(`${before[n] === undefined ? 'leaves' : 'changes'} ${n}`);
  for (const n of Object.keys(before)) if (after[n] === undefined) return fail(`removes ${n}`);
  rep.cls('failure reported');
}
// ---- the spaces ---------------------------------------------------------------------------------------------------------
const LEVELS = [null, 'none', 'less', 'default', 'aggressive'];
const FLAGS = ['--verbose', '--debug', '--no-binaryen-optimize', '--minify-wasm-size', '--disable-all-optimizers', '--enable-all-optimizers', '--enable-little-endian-storage-load-store', '--ignore-unknown-linker-library'];
const RET = [null, 'u256', 'bytes32'];
function optionSets(tier) {
  const g = [];
  product(LEVELS, RET, ...FLAGS.map(f => [null, f])).forEach(([l, r, ...f], i) => {
    // quick: every pair of settings and more (a covering part of the product, chosen by a fixed rule)
    g.push([...(l ? ['--opt-level', l] : []), ...(r ? ['--default_ret_type', r] : []), ...f.filter(Boolean)]);
  });
  return tier === 'thorough' ? g.filter((_, i) => i % 2 === 0 || i % 3 === 0) : g.filter((a, i) => (i * 2654435761 >>> 7) % 12 === 0);
}
const OUTS = ['x.wasm', './x.wasm', 'x', 'x.bin', 'a.b.wasm', '.hidden', '.hidden.wasm', 'x.', 'sp ace.wasm', 'ünï.wasm', 'x.wasm.wasm', '-', '_.w', 'x.hex', 'x.cbin.hex', '0', 'sub/x.wasm', 'sub/./x.wasm', 'new/x.wasm', 'new/deep/er/x', './new/x.y.z', 'link/x.wasm', 'sub/../y.wasm', 'a=b.wasm', "q'uote.wasm", 'T_deployed.wasm', 'in.wasm'];
function paths(job, rep) {
  const g = [];
  for (const [cn, c] of Object.entries(CON).filter(([n]) => n !== 'twin')) for (const out of OUTS) for (const abs of [false, true]) for (const stale of [false, true]) g.push([cn, c, out, abs, stale]);
  g.forEach(([cn, c, out, abs, stale], i) => {
    const key = `${cn} to ${abs ? 'absolute ' : ''}${out}${stale ? ' over old files' : ''}`;
    if (i % job.of !== job.at || job.only && job.only !== key) return;
    if (job.tier !== 'thorough' && cn !== 'plain' && (i >> 2) % 6 !== 0) return;
    const dir = scratch();
    try {
      fs.mkdirSync(dir + '/sub'); fs.mkdirSync(dir + '/target'); fs.symlinkSync('target', dir + '/link');
      fs.writeFileSync(dir + '/in.yul', source(c));
      let real = out.replace('sub/./', 'sub/').replace('sub/../', '').replace('link/', 'target/').replace(/^\.\//, '');
      if (stale) { const stem = real.replace(/(?<=[^/])\.[^./]*$/, ''); fs.mkdirSync(path.dirname(path.join(dir, real)), { recursive: true }); for (const n of [real, stem + '.cbin', stem + '.cbin.hex']) fs.writeFileSync(path.join(dir, n), 'old '.repeat(50000)); }
      const before = tree(dir);
      const o = abs ? path.join(dir) + '/' + out : out;
      const r = cli(dir, ['--input', abs ? dir + '/in.yul' : 'in.yul', ...(o.startsWith('-') ? ['--output=' + o] : ['--output', o])]);
      succeeded(rep, job, key, dir, before, r, real, c, { sample: i % 50 === 0 });
    } finally { fs.rmSync(dir, { recursive: true, force: true }); }
  });
}
function options(job, rep) {
  const sets = optionSets(job.tier), cons = Object.keys(CON);
  sets.forEach((a, i) => {
    if (i % job.of !== job.at) return;
    const cn = cons[i % cons.length], c = CON[cn];
    const key = `${cn} with ${a.join(' ') || 'no option'}`;
    if (job.only && job.only !== key) return;
    const dir = scratch();
    try {
      fs.writeFileSync(dir + '/in.yul', source(c));
      const before = tree(dir), r = cli(dir, ['--input', 'in.yul', '--output', 'o.wasm', ...a]);
      succeeded(rep, job, key, dir, before, r, 'o.wasm', c, { verbose: a.includes('--verbose'), le: a.includes('--enable-little-endian-storage-load-store'), sample: i % 50 === 0 });
    } finally { fs.rmSync(dir, { recursive: true, force: true }); }
  });
}
// linker symbols: paths x addresses x which are given x order x ignore
const SYMS = ['contracts/lib/Math.sol:Math', 'L', 'a.sol:A_b$1', '', 'very/long/' + 'd/'.repeat(40) + 'x.sol:Y', 'sp ace.sol:Z', 'contracts/lib/Math.sol:Mat'];
const ADDR = ['0x00112233445566778899aAbBcCdDeEfF00112233', '0x0000000000000000000000000000000000000000', '0xffffffffffffffffffffffffffffffffffffffff', '0x8000000000000000000000000000000000000001', '0x0000000000000000000000000000000000000001', '0xABCDEFabcdef00000000000000000000000000Aa', '0x0100000000000000000000000000000000000000'];
function symbols(job, rep) {
  const g = [];
  const prog = ps => ({ name: 'T', dep: 'return(0, 0)', run: ps.map((p, k) => `mstore(${k * 128}, linkersymbol("${p}"))`).join(" ") + ` return(0, ${ps.length * 128})` });
  for (const p of SYMS) for (const a of ADDR) g.push({ n: `${p}=${a}`, c: prog([p]), args: ['--symbol', `${p}=${a}`], linker: { [p]: a } });
  for (const [p, q] of product([0, 1, 6], [2, 4, 0, 6]).filter(([x, y]) => x !== y)) for (const opt of [[], ['--enable-all-optimizers'], ['--debug'], ['--ignore-unknown-linker-library']]) for (const [u, v] of [[0, 3], [5, 0]]) {
    const P = SYMS[p], Q = SYMS[q], A = ['--symbol', `${P}=${ADDR[u]}`], B = ['--symbol', `${Q}=${ADDR[v]}`];
    g.push({ n: `${P}, ${Q} = ${u}, ${v} ${opt}`, c: prog([P, Q, P]), args: [...A, ...B, ...opt], linker: { [P]: ADDR[u], [Q]: ADDR[v] } });
    g.push({ n: `${Q}, ${P} = ${u}, ${v} ${opt}, other order`, c: prog([P, Q]), args: [...opt, ...B, ...A], linker: { [P]: ADDR[u], [Q]: ADDR[v] } });
    g.push({ n: `${P}, ${Q} = ${u}, missing ${opt}`, c: prog([P, Q]), args: [...A, ...opt], linker: { [P]: ADDR[u], [Q]: ADDR[2] }, fails: !opt.includes('--ignore-unknown-linker-library') });
    g.push({ n: `${P} also with ${Q} = ${u}, ${v} ${opt}`, c: prog([P]), args: [...A, ...B, ...opt], linker: { [P]: ADDR[u] } });
  }
  for (const lv of ['none', 'less', 'aggressive']) g.push({ n: `level ${lv}`, c: prog(['L', 'M']), args: ['--symbol', `L=${ADDR[0]}`, '--symbol', `M=${ADDR[5]}`, '--opt-level', lv], linker: { L: ADDR[0], M: ADDR[5] } });
  // not addresses: refused, or (without the prefix) the same address
  const D = ADDR[0].slice(2);
  for (const [bad, may] of [['zz'], [''], ['0x'], ['0xg0112233445566778899aabbccddeeff00112233'], [' ' + ADDR[0]], [ADDR[0] + ' '], ['0x' + '1'.repeat(41)], ['0x' + '0'.repeat(24) + D + '0'], ['0x' + '1'.repeat(64)], ['0x' + '1'.repeat(70)], ['-0x1'], ['0x-1'], ['0x+1'], ['0x1_0'], [D, ADDR[0]], ['1122334455667788990011223344556677889900', '0x1122334455667788990011223344556677889900'], ['0X' + D, ADDR[0]], ['0x1', '0x1'], ['0x' + D.slice(1), '0x' + D.slice(1)]])
    for (const opt of [[], ['--ignore-unknown-linker-library']]) g.push({ n: `address '${bad}' ${opt}`, c: prog(['L']), args: ['--symbol', `L=${bad}`, ...opt], either: may, linker: { L: may }, fails: !may });
  for (const bad of ['L', 'L=', `L==${ADDR[0]}`, `L=${ADDR[0]}=`, `=`, `L=${ADDR[0]}=${ADDR[1]}`, '', `L:${ADDR[0]}`]) for (const opt of [[], ['--ignore-unknown-linker-library']]) g.push({ n: `symbol '${bad}' ${opt}`, c: prog(['L']), args: ['--symbol', bad, ...opt], fails: true });
  // every place a linker symbol may stand in
  const R = ' return(0, 64)';
  for (const [n, run] of Object.entries({
    'variable of the code': 'let a := linkersymbol("L") mstore(0, a) mstore(32, add(a, a))' + R, 'variable of a function': `mstore(0, f())${R} function f() -> r { let a := linkersymbol("L") r := a }`, 'variable of a block': `{ let a := linkersymbol("L") mstore(0, a) }${R}`,
    'variable under if': `if calldatasize() { let a := linkersymbol("L") mstore(0, a) }${R}`, 'variable of a loop': `for { let a := linkersymbol("L") } lt(mload(32), 2) { mstore(32, add(mload(32), 1)) } { mstore(0, add(a, mload(0))) }${R}`, 'variable under switch': `switch calldatasize() case 0 { let a := linkersymbol("L") mstore(0, a) } default { let a := linkersymbol("L") mstore(32, a) }${R}`,
    'assigned later': 'let a := 3 mstore(32, a) a := linkersymbol("L") mstore(0, a)' + R, 'overwritten': 'let a := linkersymbol("L") a := 5 mstore(0, a)' + R, 'overwritten in a function': `mstore(0, f())${R} function f() -> r { let a := linkersymbol("L") a := 5 r := a }`, 'written only': `f()${R} function f() { let a := linkersymbol("L") a := 5 }`, 'unused': `let a := linkersymbol("L") mstore(0, 1)${R}`, 'unused in a function': `f()${R} function f() { let a := linkersymbol("L") mstore(0, 1) }`,
    'same name in two blocks': `f()${R} function f() { { let a := linkersymbol("L") mstore(0, a) } { let a := 7 mstore(32, a) } }`, 'same name in a function': `let a := linkersymbol("L") mstore(0, a) f()${R} function f() { let a := 9 mstore(32, a) }`, 'used only in an inner block': `let a := linkersymbol("L") { let b := a { mstore(0, b) } }${R}`, 'used as condition': `let a := linkersymbol("L") if a { mstore(0, 8) } switch a case 0 { mstore(32, 1) } default { mstore(32, 2) }${R}`,
    'return value': `mstore(0, f())${R} function f() -> r { r := linkersymbol("L") }`, 'argument': `mstore(0, f(linkersymbol("L"), 4))${R} function f(x, y) -> r { r := sub(x, y) }`, 'address of a call': `mstore(0, delegatecall(gas(), linkersymbol("L"), 0, 0, 0, 0))${R}`, 'two variables': 'let a := linkersymbol("L") let b := linkersymbol("M") mstore(0, a) mstore(32, b)' + R, 'switch value': `switch linkersymbol("L") case 0 { mstore(0, 1) } default { mstore(0, 2) }${R}`,
  })) for (const a of [0, 3]) for (const opt of [[], ['--enable-all-optimizers'], ['--default_ret_type', 'bytes32'], ['--ignore-unknown-linker-library']]) {
    const linker = { L: ADDR[a], M: ADDR[5] };
    g.push({ n: `${n} ${a} ${opt.join(' ')}`, c: { name: 'T', dep: 'return(0, 0)', run }, args: [...Object.entries(linker).flatMap(([k, v]) => ['--symbol', `${k}=${v}`]), ...opt], linker });
  }
  g.push({ n: 'symbol for nothing', c: prog([]), args: ['--symbol', `Q=${ADDR[0]}`], linker: {} });
  g.forEach((x, i) => {
    const key = 'linker symbols ' + x.n;
    if (i % job.of !== job.at || job.only && job.only !== key) return;
    const dir = scratch();
    try {
      fs.writeFileSync(dir + '/in.yul', source(x.c));
      const before = tree(dir), r = cli(dir, ['--input', 'in.yul', '--output', 'o.wasm', ...x.args]);
      if (x.fails || x.either && r.code !== 0) failed(rep, job, key, dir, before, r);
      else succeeded(rep, job, key, dir, before, r, 'o.wasm', x.c, { linker: Object.fromEntries(Object.entries(x.linker).map(([k, v]) => [k, BigInt(v)])), sample: i % 60 === 0 });
    } finally { fs.rmSync(dir, { recursive: true, force: true }); }
  });
}
// faults: nothing may come out and the status tells
function faults(job, rep) {
  const good = source(CON.plain), g = [];
  const add = (n, o) => g.push({ n, src: good, args: [], ...o });
  const toks = good.match(/"[^"]*"|[A-Za-z0-9_.$]+|:=|->|./gs).filter(t => t.trim());
  for (let k = 0; k < toks.length; k++) add(`only the first ${k} tokens`, { src: toks.slice(0, k).join(' ') });
  for (let k = 0; k < toks.length; k++) if (/[{}()]/.test(toks[k])) add(`without token ${k} ${toks[k]}`, { src: toks.filter((_, i) => i !== k).join(' ') });
  for (const t of ['}', '{', ')', 'x', '0', 'object', ':=', '"s"', '\\']) for (let k = 0; k <= toks.length; k += t === '}' || t === '{' ? 1 : 7) add(`with ${t} before token ${k}`, { src: [...toks.slice(0, k), t, ...toks.slice(k)].join(' '), skip: t !== '}' && t !== '{' && t !== '\\' && k > 4 && k < toks.length - 2 });
  for (const [n, b] of Object.entries({
    'an undefined variable': 'mstore(0, x)', 'an undefined function': 'f(1)', 'too few arguments': 'mstore(0)', 'too many arguments': 'mstore(0, 1, 2)', 'an unknown builtin': 'mstore3(0, 1)',
    'too few arguments of a function': 'mstore(0, f(1)) function f(a, b) -> r { r := a }', 'too many arguments of a function': 'mstore(0, f(1, 2)) function f(a) -> r { r := a }',
    'an assignment to nothing': 'x := 1', 'a variable out of scope': '{ let x := 1 } mstore(0, x)', 'a variable used before its declaration': 'mstore(0, x) let x := 1', 'a bad number': 'mstore(0, 0xg)', 'a number with a letter': 'mstore(0, 1a)', 'a huge number': 'mstore(0, 0x1' + '0'.repeat(64) + ')', 'an unclosed string': 'mstore(0, "abc)', 'an unclosed comment': 'mstore(0, 1) /* x', 'two defaults': 'switch 1 default { } default { }', 'case after default': 'switch 1 default { } case 1 { }', 'a switch of nothing': 'switch 1', 'let without a name': 'let := 1', 'a literal statement': '1', 'a variable statement': 'let x := 1 x', 'a function of an outer variable': 'let y := 1 mstore(0, f()) function f() -> r { r := y }',
  })) add(n, { src: `object "T" { code { } object "T_deployed" { code { ${b} } } }` });
  for (const [n, s] of Object.entries({ 'an empty file': '', 'only blanks': ' \n\t', 'only a comment': '// x', 'text': 'hello', 'bare code': '{ mstore(0, 1) }', 'no code block': 'object "T" { }', 'an object without a name': 'object { code { } }', 'two objects': good + good, 'latin-1 bytes': Buffer.concat([Buffer.from(good), Buffer.from([0xff, 0xe9])]), 'a NUL byte': good.replace('code', 'c\0ode'), 'utf-16': Buffer.from('\ufeff' + good, 'utf16le'), 'a wasm file': Buffer.from([0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]) })) add(n, { src: s });
  for (const a of [['--opt-level', 'more'], ['--opt-level', 'O2'], ['--opt-level', '3'], ['--opt-level', ''], ['--opt-level', 'None'], ['--opt-level', ' none'], ['--opt-level', 'default '], ['--opt-level'], ['--default_ret_type', 'u128'], ['--default_ret_type', ''], ['--default_ret_type', 'U256'], ['--default_ret_type', 'bytes'], ['--default_ret_type'], ['--nonsense'], ['-x'], ['extra'], ['--debug=true'], ['--symbol'], ['--main-contract'], ['--minify-wasm-size', 'yes'], ['--input', 'in.yul'], ['--output', 'p.wasm'], ['--debug', '--debug']]) add('option ' + a.join(' '), { args: a });
  add('no input file', { raw: ['--output', 'o.wasm'] }); add('no output file', { raw: ['--input', 'in.yul'] }); add('no arguments', { raw: [] });
  add('input missing', { raw: ['--input', 'nope.yul', '--output', 'o.wasm'] }); add('input is a directory', { raw: ['--input', '.', '--output', 'o.wasm'] }); add('input path empty', { raw: ['--input', '', '--output', 'o.wasm'] });
  add('input in a missing directory', { raw: ['--input', 'no/in.yul', '--output', 'o.wasm'] }); add('input below a file', { raw: ['--input', 'in.yul/x', '--output', 'o.wasm'] }); add('dangling input link', { pre: d => fs.symlinkSync('gone', d + '/l'), raw: ['--input', 'l', '--output', 'o.wasm'] });
  add('output path empty', { raw: ['--input', 'in.yul', '--output', ''] }); add('output is a directory', { pre: d => fs.mkdirSync(d + '/o.wasm'), raw: ['--input', 'in.yul', '--output', 'o.wasm'] }); add('output below a file', { raw: ['--input', 'in.yul', '--output', 'in.yul/o.wasm'] }); add('output ..', { raw: ['--input', 'in.yul', '--output', '..'] }); add('output /', { raw: ['--input', 'in.yul', '--output', '/'] });
  g.forEach((x, i) => {
    if (x.skip) return;
    for (const stale of [false, true]) {
      const key = `fault: ${x.n}${stale ? ', old outputs there' : ''}`;
      if (i % job.of !== job.at || job.only && job.only !== key) continue;
      if (stale && job.tier !== 'thorough' && i % 3 !== 0) continue;
      const dir = scratch();
      try {
        fs.writeFileSync(dir + '/in.yul', x.src);
        if (x.pre) x.pre(dir);
        if (stale) for (const n of ['o.wasm', 'o.cbin', 'o.cbin.hex']) if (!fs.existsSync(dir + '/' + n)) fs.writeFileSync(dir + '/' + n, 'old');
        const before = tree(dir), r = cli(dir, x.raw || ['--input', 'in.yul', '--output', 'o.wasm', ...x.args]);
        failed(rep, job, key, dir, before, r);
      } finally { fs.rmSync(dir, { recursive: true, force: true }); }
    }
  });
  if (job.at === 0) for (const a of [['--help'], ['-h'], ['--version'], ['-V']]) {
    const key = a.join(' '), dir = scratch();
    if (job.only && job.only !== key) continue;
    const r = cli(dir, a); rep.state(); rep.trace(); rep.step();
    if (r.code !== 0 || !r.out.trim() || Object.keys(tree(dir)).length) rep.viol(key, `exits ${r.code} and prints ${r.out.slice(0, 60)}`, { ...job, only: key }); else rep.cls('success');
    fs.rmSync(dir, { recursive: true, force: true });
  }
}
// sequences of runs in one directory: each run leaves what it alone would leave
function histories(job, rep) {
  const steps = [
    { n: 'plain', c: 'plain', out: 'o.wasm', a: [] }, { n: 'funs', c: 'funs', out: 'o.wasm', a: ['--minify-wasm-size'] }, { n: 'twin', c: 'twin', out: 'o.wasm', a: [] }, { n: 'fail', bad: true, out: 'o.wasm', a: [] },
    { n: 'badopt', c: 'plain', fail: true, out: 'o.wasm', a: ['--opt-level', 'x'] }, { n: 'other', c: 'reverts', out: 'o.bin', a: [] }, { n: 'verbose', c: 'plain', out: 'o.wasm', a: ['--verbose'] },
  ];
  const alone = {};
  const exp = s => { // what the step leaves in an empty directory
    if (alone[s.n]) return alone[s.n];
    const d = scratch(); fs.writeFileSync(d + '/in.yul', source(CON[s.c])); cli(d, ['--input', 'in.yul', '--output', s.out, ...s.a]);
    const t = tree(d); delete t['in.yul']; fs.rmSync(d, { recursive: true, force: true });
    return alone[s.n] = t;
  };
  product(steps, steps, job.tier === 'thorough' ? steps : [null]).forEach((h, i) => {
    const key = 'history ' + h.filter(Boolean).map(s => s.n).join(', ');
    if (i % job.of !== job.at || job.only && job.only !== key) return;
    const dir = scratch(), model = {};
    try {
      for (const s of h.filter(Boolean)) {
        rep.step();
        const src = s.bad ? 'object "T" { code { ' : source(CON[s.c]);
        fs.writeFileSync(dir + '/in.yul', src);
        const r = cli(dir, ['--input', 'in.yul', '--output', s.out, ...s.a]), ok = !s.bad && !s.fail;
        if ((r.code === 0) !== ok) { rep.viol(key, `step ${s.n} exits ${r.code}: ${tail(r)}`, { ...job, only: key }); break; }
        if (ok) Object.assign(model, exp(s));
        model['in.yul'] = src;
        const t = tree(dir), k = [...new Set([...Object.keys(t), ...Object.keys(model)])].find(k => t[k] !== model[k]);
        if (k) { rep.viol(key, `after step ${s.n}, ${k} is ${t[k] === undefined ? 'missing' : model[k] === undefined ? 'there' : 'not what that run leaves alone'}`, { ...job, only: key }); break; }
      }
      rep.state(); rep.trace(); rep.cls('history');
    } finally { fs.rmSync(dir, { recursive: true, force: true }); }
  });
}
const KINDS = { options, paths, symbols, faults, histories };
module.exports = {
  technique: 'exhaustive enumeration of option sets, output paths, linker symbol assignments, faults and run histories of the real command line tool; exit status and complete directory content compared with the model after every run, modules executed against the reference interpreter',
  needs: ['std', 'cli'],
  bounds: t => `${optionSets(t).length} option sets of ${product(LEVELS, RET).length * 256}; ${OUTS.length} output paths x absolute or not x over old files or not x ${t === 'thorough' ? 'all ' : ''}${Object.keys(CON).length} contracts; ${SYMS.length} symbol paths x ${ADDR.length} addresses, pairs x orders x presence x options, malformed symbols; truncations and token edits of a program, invalid programs, options and paths; histories of ${t === 'thorough' ? 3 : 2} runs over 7 steps`,
  assumptions: ['the LLVM binding is the shim over the real LLVM 16 C API; wasm-ld, llc are the installed ones', 'the output path does not itself end in .cbin'],
  conformance: 'every state is a run of the real tool; modules are executed and compared with the reference interpreter',
  jobs: tier => Object.keys(KINDS).flatMap(kind => Array.from({ length: 24 }, (_, at) => ({ kind, at, of: 24, tier }))),
  exec(job, rep) { KINDS[job.kind](job, rep); },
  done: () => C.stop(),
};
