'use strict';
// Builtins with effects in compiled contracts: memory, call data, storage, calls, code, halts, logs, environment.
// Families, all exhaustive within their sets:
//   argument   every argument of every builtin x every form an operand can have x the argument's words
//   literal    every argument as a literal of every word of its set, the others as call data
//   literals   all arguments literal (what the compiler can fold)
//   product    all arguments from call data, product of the sets
//   flip       in one run, the builtin with every bit of one argument changed, each followed by the builtin unchanged
//   content    in one run, the builtin over memory with every bit of it changed, each followed by it unchanged
//   place      in functions of the names the code generator knows
//   sequence   all sequences of statements of an alphabet up to a depth
// Every program ends by logging the memory it can have changed; the reference interpreter gives the expected trace.
const { explore, product } = require('./clayer');
const A = require('./arith');
const { PLACES } = require('./contract');
const W = require('./words');
const { toBE, H, hex } = require('./u256');
const B = (a, n = 0n) => (1n << BigInt(a)) + n;
const M = W.M;
const bytes = (n, s) => new Uint8Array(n).map((_, i) => (i * 37 + s) & 255);
const OPTS = { quick: ['O0', 'O3', 'bytes32', 'minify,le'], thorough: ['O0', 'O1', 'O2', 'O3', 'bytes32', 'bytes32,O0', 'le', 'minify', 'disopt', 'noinline', 'debug', 'allopt', 'allopt,le', 'allopt,O0'] };
// memory offsets; `hi`: ones no memory reaches
const LOWOFF = [128n, 129n, 159n, 160n, 161n, 191n, 255n, 256n, 65535n, 65536n, 131070n];
const HI = [B(32, -32n), B(32, -1n), B(32), B(32, 128n), B(33, 160n), B(63), B(64, -1n), B(64), B(64, 128n), B(128, 160n), B(255), M - 31n, M];
const OFF = [...LOWOFF, ...HI], OFFS = [128n, 161n, 65535n, B(32, 128n), B(64, 160n), M];
const LEN = [0n, 1n, 4n, 31n, 32n, 33n, 64n, 100n, B(32), B(32, 4n), B(64), B(64, 32n), B(255), M], LENS = [0n, 5n, 32n, 65n, B(32, 5n), M];
const WORD = [0n, 1n, 255n, 256n, B(31), B(32, -1n), B(32), B(63), B(64, -1n), B(64), B(128), B(255), M, M - 1n, W.INC], WORDS = [0n, 1n, B(32), B(64, -1n), B(255), W.INC];
const ADDR = [0n, 7n, 0x707n, B(64), B(159, 1n), B(160, -1n), B(160), W.INC, M], ADDRS = [0x707n, B(160, 0x707n), W.INC];
const GAS = [0n, 1n, 2300n, B(32), B(63, -1n), B(63), B(64, -1n), B(64), B(64, 9n), M], GASS = [5n, B(63, -1n), B(64, 9n)];
const SRC = [0n, 1n, 3n, 31n, 32n, 60n, 69n, 70n, 71n, 100n, 200n, B(31, -1n), B(31), ...HI], SRCS = [0n, 5n, 68n, 200n, B(32, 1n), M];
// code offsets whose low 31 to 32 bits are a negative number are the compiler's own dataoffset()
const CSRC = SRC.filter(x => x < B(31) || x >= B(32));
const BLK = 0x1122334455n, BLOCKS = [0n, BLK, BLK - 1n, BLK - 2n, BLK - 255n, BLK - 256n, BLK - 257n, BLK + 1n, B(32), B(63), B(64, -1n), B(64), B(64, BLK - 1n), B(255), M];
const T = { off: [OFF, OFFS], len: [LEN, LENS], word: [WORD, WORDS], addr: [ADDR, ADDRS], gas: [GAS, GASS], src: [SRC, SRCS], csrc: [CSRC, CSRC.filter(x => SRCS.includes(x))], blk: [BLOCKS, BLOCKS.slice(1, 6)], b: [[0n, 1n, 255n, 256n, 0x1ffn, B(32), M], [7n, 0x1ffn, M]] };
const SAFE = { off: 160n, len: 40n, word: W.DEC, addr: 0x707n, gas: 70000n, src: 9n, csrc: 9n, blk: BLK - 1n, b: 0x1abn };
const FILL = 'function fill() { mstore(128, 0x8182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9fa0) mstore(160, 0xa1a2a3a4a5a6a7a8a9aaabacadaeafb0b1b2b3b4b5b6b7b8b9babbbcbdbebfc0) mstore(192, 0xc1c2c3c4c5c6c7c8c9cacbcccdcecfd0d1d2d3d4d5d6d7d8d9dadbdcdddedfe0) mstore(224, 0xe1e2e3e4e5e6e7e8e9eaebecedeeeff0f1f2f3f4f5f6f7f8f9fafbfcfdfeff01) mstore(65520, 0x1234567800000000000000000000000000000000000000000000000000abcdef) }';
const IDF = 'function idf(x) -> r { r := x }';
const LOOK = ' log0(128, 256) log2(65500, 80, msize(), mload(131072))';
const RET = 'pop(staticcall(50000, 0x77, 128, 4, 0, 0)) ';
// ---- the builtins of each property: [name, argument kinds, text of the statement(s)] -----------------------------------
const stm = n => a => `${n}(${a})` + LOOK, val = n => a => `log1(0, 0, ${n}(${a}))` + LOOK, vvar = n => a => `let r := ${n}(${a}) mstore(224, r) log1(224, 32, r)` + LOOK, end = n => a => `${n}(${a})`;
const call = (n, k) => [n, k, a => `let ok := ${n}(${a}) log2(0, 0, ok, returndatasize()) returndatacopy(300, 0, returndatasize())` + LOOK + ' log0(300, 70)'];
const crt = (n, k) => [n, k, a => `mstore(128, shl(224, 5)) mstore(132, ${W.INC}) let r := ${n}(${a}) log2(0, 0, r, returndatasize())` + LOOK];
const OPS = {
  C07: [['mstore', ['off', 'word'], stm('mstore')], ['mstore8', ['off', 'b'], stm('mstore8')], ['mload', ['off'], val('mload')], ['mload', ['off'], vvar('mload')], ['mcopy', ['off', 'off', 'len'], stm('mcopy')], ['calldatacopy', ['off', 'src', 'len'], stm('calldatacopy')], ['codecopy', ['off', 'csrc', 'len'], stm('codecopy')], ['returndatacopy', ['off', 'src', 'len'], a => RET + `returndatacopy(${a})` + LOOK], ['keccak256', ['off', 'len'], val('keccak256')], ['return', ['off', 'len'], end('return')], ['mstore msize', ['off', 'word'], a => `mstore(${a}) log1(0, 0, msize())`], ['mload msize', ['off'], a => `pop(mload(${a})) log1(0, 0, msize())`]],
  C08: [['calldataload', ['src'], val('calldataload')], ['calldataload', ['src'], vvar('calldataload')], ['calldatacopy', ['off', 'src', 'len'], stm('calldatacopy')]],
  C09: [['sstore', ['word', 'word'], (a, l) => `sstore(${a}) log2(0, 0, sload(${l[0]}), tload(5))`], ['sload', ['word'], val('sload')], ['sload', ['word'], vvar('sload')], ['tstore', ['word', 'word'], a => `tstore(${a}) log2(0, 0, tload(5), sload(5))`], ['tload', ['word'], a => `tstore(5, 77) log1(0, 0, tload(${a}))`], ['tload', ['word'], vvar('tload')]],
  C11: [call('call', ['gas', 'addr', 'word', 'off', 'len', 'off', 'len']), call('delegatecall', ['gas', 'addr', 'off', 'len', 'off', 'len']), call('staticcall', ['gas', 'addr', 'off', 'len', 'off', 'len']), ['returndatacopy', ['off', 'src', 'len'], a => RET + `returndatacopy(${a})` + LOOK]],
  C12: [crt('create', ['word', 'off', 'len']), crt('create2', ['word', 'off', 'len', 'word']), ['codecopy', ['off', 'csrc', 'len'], stm('codecopy')], ['extcodecopy', ['addr', 'off', 'src', 'len'], stm('extcodecopy')], ['extcodesize', ['addr'], val('extcodesize')], ['extcodehash', ['addr'], val('extcodehash')], ['extcodehash', ['addr'], vvar('extcodehash')]],
  C13: [['return', ['off', 'len'], end('return')], ['revert', ['off', 'len'], end('revert')], ['keccak256', ['off', 'len'], val('keccak256')], ['keccak256', ['off', 'len'], vvar('keccak256')], ['selfdestruct', ['addr'], a => `selfdestruct(${a}) log0(0, 3)`], ...[0, 1, 2, 3, 4].map(n => ['log' + n, ['off', 'len', ...Array(n).fill('word')], stm('log' + n)])],
  C14: [['balance', ['addr'], val('balance')], ['balance', ['addr'], vvar('balance')], ['blockhash', ['blk'], val('blockhash')], ['blockhash', ['blk'], vvar('blockhash')], ['extcodesize', ['addr'], vvar('extcodesize')], ['extcodehash', ['addr'], val('extcodehash')]],
};
const EXT = new Map([['0'.repeat(37) + '707', { code: bytes(60, 1), balance: B(200, 99n) }], ['0'.repeat(39) + '7', { code: bytes(9, 1), balance: B(100, 9n) }], [H(toBE(W.INC & (B(160) - 1n), 20)), { code: bytes(5, 9), balance: 3n }], ['f'.repeat(40), { code: bytes(1, 8), balance: M }], ['0'.repeat(40), { balance: 1n, hash: bytes(32, 200) }]]);
const world = (extra = {}) => ({ ext: EXT, calls: [{ status: 0, data: bytes(70, 3) }, { status: 0, data: bytes(10, 5) }, { status: 1, data: bytes(64, 9) }], creates: [{ status: 0, addr: bytes(20, 60) }, { status: 0, addr: bytes(20, 90) }], storage: new Map([[5n, 0x55n], [0n, W.INC], [B(64), M], [W.INC, 3n]]), number: BLK, ...extra });
// several programs must not touch 33..127 so that they mean the same with the free memory pointer held outside memory
const C = i => `calldataload(${32 + 32 * i})`, lit = (v, i) => A.lit(v, i % 2 ? 'd' : 'h');
function build(op, key, parts) { // parts: per argument {p, e, w}
  const pre = parts.map(p => p.p || '').filter(Boolean).join(' '), [n, , mk] = op;
  return { key: `${n}${mk.toString().includes('let r') ? ' in a variable' : ''}: ${key}`, code: `fill() ${pre} ${mk(parts.map(p => p.e).join(', '), parts.map(p => p.e))}`, funs: [IDF, FILL], parts };
}
const n0 = op => op[0] + (/let r/.test(op[2].toString()) ? ' in a variable' : ''), mk = (op, es) => op[2](es.join(', '), es).replaceAll(LOOK, ' log0(128, 96)').replaceAll('log0(300, 70)', 'log0(300, 7)');
const inp = (s, words) => { const i = A.inputs({ parts: s.parts }, words); return { words, o: world(i.o) }; };
// outcomes of a call: with more and with less return data than the output area; failing with more
const OUTCOMES = [{ status: 0, data: bytes(70, 3) }, { status: 0, data: bytes(3, 5) }, { status: 0, data: bytes(0, 5) }, { status: 1, data: bytes(70, 9) }];
const FORMS = Object.keys(A.FORMS);
const over = (n, stmt) => `fill() for { let k := 0 } lt(k, ${8 * n}) { k := add(k, 1) } { let q := add(128, shr(3, k)) let b := byte(0, mload(q)) mstore8(q, xor(b, shl(and(k, 7), 1))) ${stmt} mstore8(q, b) ${stmt} }`;
const bits = stmt => `let x := ${C(0)} let y := ${C(1)} for { let k := 0 } lt(k, 256) { k := add(k, 1) } { let z := xor(x, shl(k, 1)) ${stmt} }`;
const hash = (a, b) => `mstore(0, ${a}) mstore(32, ${b}) log1(0, 0, keccak256(0, 64)) `;
const CONTENT = {
  C09: [['map', bits('sstore(key(z, 3), k) sstore(key(x, 3), y) log2(0, 0, sload(key(z, 3)), sload(key(x, 3))) log0(0, 64)')], ['map of map', bits('sstore(key(y, key(z, 3)), k) sstore(key(z, key(y, 3)), x) log2(0, 0, sload(key(y, key(z, 3))), sload(key(y, key(x, 3))))')], ['slots', bits('sstore(z, k) tstore(x, k) tstore(z, y) log4(0, 0, sload(z), sload(x), tload(x), tload(z))')]],
  C11: [4, 36, 68].map(n => [`call input of ${n}`, over(n, `pop(call(5000, 0x707, 1, 128, ${n}, 0, 0)) pop(staticcall(5000, 0x707, 128, ${n}, 0, 0))`)]),
  C12: [[`created code`, over(9, 'mstore(160, shl(224, 5)) pop(create2(0, 128, 9, 7))')]],
  C13: [...[1, 4, 20, 32, 33, 40, 52, 64, 65, 72, 96, 135, 136, 137].map(n => [`hash of ${n}`, over(n, `log1(0, 0, keccak256(128, ${n}))`)]), ['hash of two words', bits(hash('z', '3') + hash('x', '3') + hash('y', 'z') + hash('y', 'x'))], ['hash of a word', bits('mstore(0, z) log1(0, 32, keccak256(0, 32)) mstore(0, x) log1(0, 32, keccak256(0, 32))')], ['topics', bits('log2(128, 3, z, x) log1(128, 3, z) log1(128, 3, x)')]],
  C14: [['balances', bits('log4(0, 0, balance(z), balance(x), extcodesize(z), extcodehash(z))')], ['blocks', bits('log2(0, 0, blockhash(xor(number(), shl(k, 1))), blockhash(sub(number(), k)))')]],
};
function family(prop, fam, tier, opts) {
  const X = tier === 'thorough', out = [];
  if (fam === 'content') for (const [n, code] of CONTENT[prop] || []) { const s = { key: `${n}, every bit`, code, funs: [IDF, FILL, KEY].filter(f => f !== KEY || /key\(/.test(code)), parts: [] }; s.inputs = [[5n, 7n], [W.INC, W.DEC], [M, 0n]].map(w => inp(s, w)); out.push(s); }
  for (const op of OPS[prop] || []) {
    const [, kinds] = op, n = kinds.length;
    const safe = kinds.map(k => SAFE[k]);
    if (fam === 'argument') kinds.forEach((k, i) => {
      for (const f of FORMS) {
        const parts = kinds.map((q, j) => (j === i ? A.FORMS[f](j) : j % 2 ? { e: lit(SAFE[q], j) } : { e: C(j) })), s = build(op, `argument ${i} as ${f}`, parts);
        s.inputs = (opts && !X ? T[k][1] : T[k][0]).map(v => inp(s, safe.map((x, j) => (j === i ? v : x))));
        out.push(s);
      }
    });
    if (fam === 'literal') kinds.forEach((k, i) => (opts && !X ? T[k][1] : T[k][0]).forEach((v, vi) => {
      for (const f of [0, 1]) {
        const s = build(op, `argument ${i} the literal ${lit(v, f)}`, kinds.map((q, j) => (j === i ? { e: lit(v, f) } : { e: C(j) })));
        s.inputs = [safe, kinds.map((q, j) => (q === k ? SAFE[q] : T[q][1][0]))].map(w => inp(s, w));
        out.push(s);
      }
    }));
    if (fam === 'literals') {
      const sets = kinds.map((k, i) => (n <= 2 ? T[k][0] : n === 3 ? T[k][1] : [SAFE[k], T[k][1][(i + 1) % T[k][1].length]]));
      let c = 0;
      for (const t of product(...sets)) { const s = build(op, `literals ${t.map(hex).map(h => h.replace(/^0+(?=.)/, '')).join(',')}`, t.map((v, j) => ({ e: lit(v, j + c) }))); c++; s.inputs = [inp(s, [])]; out.push(s); }
    }
    if (fam === 'flip' && !/^(return|revert|selfdestruct)$/.test(op[0])) kinds.forEach((k, i) => {
      for (const [f, arg] of [['call data', q => C(q)], ['variables', q => `v${q}`]]) {
        const at = z => mk(op, kinds.map((_, j) => (j === i ? z : arg(j)))), pre = f === 'variables' ? kinds.map((_, j) => `let v${j} := ${C(j)}`).join(' ') + ' ' : '';
        const s = { key: `${n0(op)}: argument ${i} with every bit changed, then as it was, ${f}`, code: `fill() ${pre}for { let k := 0 } lt(k, ${{ off: 13, len: 9 }[k] || 256}) { k := add(k, 1) } { { ${at(`xor(${arg(i)}, shl(${k === 'csrc' ? 'add(k, eq(k, 31))' : 'k'}, 1))`)} } { ${at(arg(i))} } }`, funs: [IDF, FILL], parts: [] };
        s.inputs = [safe, kinds.map((q, j) => (j === i ? T[q][1][0] : SAFE[q]))].map(w => inp({ parts: [] }, w));
        out.push(s);
      }
    });
    // copies between near places of near sizes, all literal: what the compiler may expand in place
    if (fam === 'near' && /copy$/.test(op[0]) && n === 3) {
      for (const t of product([128n, 130n, 159n, 160n, 176n, 192n], op[0] === 'mcopy' ? [128n, 131n, 160n, 161n, 192n, 200n] : [0n, 3n, 32n, 33n, 36n], [1n, 8n, 16n, 20n, 31n, 32n, 33n, 64n, 65n, 96n])) { const s = build(op, `near literals ${t}`, t.map((v, j) => ({ e: lit(v, j) }))); s.inputs = [inp(s, [])]; out.push(s); }
    }
    if (fam === 'place') {
      const vary = kinds.map(k => T[k][1]), max = Math.max(...vary.map(v => v.length));
      const ins = [safe, ...Array.from({ length: max }, (_, i) => vary.map((v, j) => v[(i + j) % v.length])), ...kinds.flatMap((k, i) => T[k][1].map(v => safe.map((x, j) => (j === i ? v : x))))];
      for (const [key, parts] of [['call data', kinds.map((_, j) => ({ e: C(j) }))], ['variables', kinds.map((_, j) => A.FORMS.V(j))], ['zero variables', kinds.map((_, j) => A.FORMS.N(j))], ['literals and variables', kinds.map((q, j) => (j % 2 ? { e: lit(SAFE[q], j) } : A.FORMS.V(j)))], ['variables and literals', kinds.map((q, j) => (j % 2 ? A.FORMS.f(j) : { e: lit(SAFE[q], j) }))]]) {
        const s = build(op, `all from ${key}`, parts);
        s.inputs = ins.map(w => inp(s, w));
        out.push(s);
      }
    }
    if (fam === 'product') {
      const sets = kinds.map(k => (n <= 2 || X && n === 3 ? T[k][0] : n <= 4 ? T[k][1] : T[k][1].slice(0, 3)));
      const s = build(op, 'all from call data', kinds.map((_, j) => ({ e: C(j) })));
      s.inputs = product(...sets).map(w => inp(s, w));
      if (/call$/.test(op[0])) s.inputs = s.inputs.flatMap(i => OUTCOMES.map(c => ({ words: i.words, o: { ...i.o, calls: [c] } })));
      if (/^create/.test(op[0])) s.inputs = s.inputs.flatMap(i => [[], [{ status: 0, addr: bytes(20, 7), data: bytes(33, 1) }]].map(c => ({ words: i.words, o: c.length ? { ...i.o, creates: c } : i.o })));
      const v = build(op, 'all variables', kinds.map((_, j) => A.FORMS.V(j)));
      v.inputs = s.inputs.map(i => ({ ...i }));
      out.push(s, v);
    }
  }
  return out;
}
// ---- sequences ------------------------------------------------------------------------------------------------------------
const HEAD = 'fill() let x := calldataload(32) let y := calldataload(64) let p := 161 ', TAIL = ' log4(128, 160, x, y, p, msize())';
const KEY = 'function key(k, s) -> r { mstore(0, k) mstore(32, s) r := keccak256(0, 64) }';
const SEQ = {
  C07: { m0: 'mstore(160, x)', m1: 'mstore(173, y)', m8: 'mstore8(170, x)', m8b: 'mstore8(p, 0x1ff)', ml: 'x := mload(150)', mlp: 'y := mload(p)', mp: 'mstore(p, y)', mc1: 'mcopy(170, 160, 40)', mc2: 'mcopy(p, 180, 20)', mc3: 'mcopy(150, p, 33)', cdc: 'calldatacopy(165, 30, 37)', cc: 'codecopy(170, 3, 20)', g1: 'mstore(70000, x)', g2: 'y := add(y, mload(69990))', g3: 'calldatacopy(131060, 0, 20) y := mload(131050)', ms: 'x := xor(x, msize())', kc: 'y := keccak256(150, 60)', ls: 'mstore(192, "abc")', lc: 'mstore(200, 0x1122334455667788)', l4: 'mstore(180, 0x11223344)', pp: 'p := add(p, 7)', z: 'mstore(160, 0)', ca: 'pop(staticcall(9, 0x77, 150, 20, 165, 33)) returndatacopy(175, 1, 9)', lg: 'log1(150, 60, mload(160))' },
  C08: { l0: 'x := add(mul(x, 3), calldataload(0))', l4: 'y := add(mul(y, 5), calldataload(4))', l36: 'x := xor(x, calldataload(36))', l68: 'x := xor(x, calldataload(68))', lx: 'y := add(y, calldataload(and(x, 0x7f)))', sz: 'x := add(x, calldatasize())', lz: 'y := xor(y, calldataload(sub(calldatasize(), 9)))', lq: 'y := xor(y, calldataload(calldatasize()))', c4: 'calldatacopy(160, 4, 32)', ca: 'calldatacopy(128, 0, calldatasize())', cz: 'calldatacopy(170, calldatasize(), 20)', cx: 'calldatacopy(140, and(x, 0xff), 50)', sel: 'x := shr(224, calldataload(0))', m: 'x := mload(160)', w: 'mstore(150, y)', u: 'y := and(calldataload(4), sub(shl(160, 1), 1))', lo: 'log1(128, 64, calldataload(100))', li: 'if lt(calldatasize(), 36) { y := add(y, 1) }' },
  C09: { s0: 'sstore(0, y)', sx: 'sstore(x, 1)', sy: 'sstore(y, x)', sk: 'sstore(key(x, 3), y)', sk2: 'sstore(key(x, 4), 0)', sc: 'sstore(caller(), timestamp())', sb: 'sstore(0, gt(x, 3))', sz: 'sstore(x, 0)', sr: 'sstore(5, prevrandao())', t0: 'tstore(0, x)', tx: 'tstore(x, y)', l0: 'x := sload(0)', l5: 'y := add(y, sload(5))', lx: 'x := sload(x)', ly: 'y := xor(y, sload(y))', lk: 'y := add(y, sload(key(x, 3)))', q0: 'x := add(x, tload(0))', qx: 'y := tload(x)', mv: 'sstore(0, sload(5))', mt: 'tstore(5, sload(0)) x := tload(5)', in: 'sstore(5, add(sload(5), 1))', pk: 'sstore(0, or(and(sload(0), not(0xff)), and(y, 0xff)))', ca: 'pop(call(9, 0x77, 0, 0, 0, 0, 0))', cp: 'let z := sload(0) sstore(0, 9) x := z', xi: 'x := add(x, 1)' },
  C11: { ca: 'x := call(9, y, 3, 128, 40, 160, 32)', cs: 'x := add(x, staticcall(gas(), 0x77, 150, 3, 140, 7))', cd: 'x := delegatecall(5, 0x707, 0, 0, 0, 0)', cz: 'pop(call(5, 0x707, x, 128, 0, 128, 64))', sz: 'y := add(y, returndatasize())', rc: 'returndatacopy(150, 0, returndatasize())', r3: 'if gt(returndatasize(), 5) { returndatacopy(170, 2, 3) }', r0: 'returndatacopy(200, returndatasize(), 0)', mx: 'mstore(160, x)', ml: 'y := mload(150)', lg: 'log1(140, 80, returndatasize())', cr: 'x := create(0, 300, 0)', if: 'if iszero(call(7, 0x707, 0, 128, 4, 0, 0)) { returndatacopy(128, 0, returndatasize()) revert(128, returndatasize()) }', ok: 'if x { y := 0 }', g: 'mstore(70000, y) y := mload(70000)' },
  C13: { l0: 'log0(150, 20)', l1: 'log1(128, 3, x)', l2: 'log2(p, 0, y, 1)', l3: 'log3(128, 40, x, x, y)', l4: 'log4(160, 5, 0, x, not(0), y)', k: 'x := keccak256(128, 64)', k0: 'y := keccak256(p, 0)', m: 'mstore(150, x)', rt: 'if gt(x, y) { return(150, 30) }', rv: 'if lt(x, y) { revert(p, 9) }', st: 'if eq(x, y) { stop() }', iv: 'if iszero(x) { invalid() }', sd: 'if iszero(y) { selfdestruct(x) }', ry: 'return(128, and(x, 63))', rz: 'revert(0, 0)', fs: 'halt(x)', g: 'mstore(70000, y) log1(69990, 60, mload(70000))', s: 'sstore(x, y)' },
  C14: { ca: 'x := add(x, caller())', ad: 'y := xor(y, address())', or: 'x := xor(mul(x, 3), origin())', cv: 'y := add(y, callvalue())', gp: 'x := add(x, gasprice())', ts: 'y := add(mul(y, 7), timestamp())', nu: 'x := sub(x, number())', bh: 'y := xor(y, blockhash(sub(number(), 2)))', cb: 'x := add(x, coinbase())', pr: 'y := add(y, prevrandao())', ci: 'x := xor(x, chainid())', sb: 'y := sub(y, selfbalance())', ba: 'x := add(x, balance(7))', bx: 'y := xor(y, balance(x))', bf: 'x := add(x, basefee())', bb: 'y := xor(y, blobbasefee())', gl: 'x := add(x, gaslimit())', xs: 'y := add(y, extcodesize(7))', xh: 'x := xor(x, extcodehash(7))', ga: 'y := add(y, gas())', cl: 'pop(call(9, 0x77, 0, 0, 0, 0, 0))', if: 'if eq(caller(), origin()) { x := 0 }', ws: 'sstore(caller(), address())', wm: 'mstore(160, coinbase())' },
};
const HALT = 'function halt(x) { if and(x, 1) { return(128, 3) } if and(x, 2) { revert(129, 2) } if and(x, 4) { stop() } }';
const VIN = { C07: [[W.INC, W.DEC], [0n, M]], C09: [[5n, 6n], [B(255, 5n), 0n]], C11: [[3n, 0x909n], [M, B(160, 0x707n)]], C13: [[0n, 0n], [3n, 5n], [M, 4n], [6n, 6n]], C14: [[3n, 4n]] };
const sets = { C09: [{ status: 0, data: bytes(3, 1), then: w => { w.storage.set(0n, 0x1234n); w.storage.set(5n, w.sload(5n) + 7n); w.storage.set(B(255, 5n), 8n); } }, { status: 1, data: bytes(3, 1) }, { status: 0, data: bytes(0, 1), then: w => { w.storage.set(0n, 0n); } }], C14: [{ status: 0, data: bytes(3, 1), then: w => { w.selfbal = B(130, 5n); w.gasleft -= 77n; w.ext = new Map([...EXT, ['0'.repeat(39) + '7', { code: bytes(2, 1), balance: 1n }]]); } }] };
function seqs(prop, depth, of = 1, at = 0) {
  const L = Object.entries(SEQ[prop]), out = [];
  let k = 0;
  const rec = (name, code, left) => { if (!left) { if (k++ % of === at) out.push({ key: `sequence ${name.join(' ')}`, code: HEAD + code + TAIL, funs: [FILL, KEY, HALT].filter(f => f === FILL || f === KEY && /key\(/.test(code) || f === HALT && /halt\(/.test(code)) }); return; } for (const [n, c] of L) { if (c.startsWith('let z') && code.includes('let z')) continue; rec([...name, n], code + c + ' ', left - 1); } };
  rec([], '', depth);
  return out;
}
// free call data, the snippet chosen by chainid()
const SIZES = { quick: [0, 1, 3, 4, 5, 31, 32, 35, 36, 37, 67, 68, 69, 99, 100, 101, 132, 200], thorough: [...Array(140).keys(), 164, 200, 255, 256, 300] };
const seqInputs = (prop, tier) => (prop === 'C08' ? SIZES[tier].map(n => ({ o: world({ calldata: bytes(n, 11) }) })) : VIN[prop].map(words => ({ words, o: world(sets[prop] ? { calls: sets[prop] } : {}) })));
const FAMS = ['argument', 'literal', 'literals', 'product', 'flip', 'content', 'near'];
function jobs(prop, tier) {
  const X = tier === 'thorough', r = [];
  if (OPS[prop]) for (const fam of FAMS) { r.push({ c: 1, prop, fam, opts: '', tier }); for (const opts of OPTS[tier]) if (X || fam !== 'product' && (fam !== 'near' || opts === 'bytes32')) r.push({ c: 1, prop, fam, opts, tier }); }
  if (SEQ[prop]) {
    const n = Object.keys(SEQ[prop]).length;
    for (const d of [0, 1, 2]) for (const opts of ['', ...OPTS[tier]]) r.push({ c: 1, prop, fam: 'sequence', depth: d, opts, tier, of: 1, at: 0 });
    const of = Math.ceil(n ** 3 / 800);
    for (const opts of X ? ['', 'O0', 'bytes32', 'allopt,le'] : ['']) for (let at = 0; at < of; at++) r.push({ c: 1, prop, fam: 'sequence', depth: 3, opts, tier, of, at });
  }
  if (OPS[prop]) for (const opts of X ? ['', 'O0', 'bytes32', 'le', 'allopt,le'] : ['', 'allopt,le']) for (const place of PLACES.slice(0, opts && !X ? 6 : 99)) r.push({ c: 1, prop, fam: 'place', place, opts, tier });
  return (EXTRA[prop] ? EXTRA[prop].jobs(tier).map(j => ({ ...j, c: 1, prop, extra: 1, tier })) : []).concat(r);
}
async function exec(job, rep) {
  if (job.extra) return EXTRA[job.prop].exec(job, rep);
  if (job.fam === 'sequence') {
    const free = job.prop === 'C08', sn = seqs(job.prop, job.depth, job.of, job.at);
    if (free) for (const s of sn) s.code = s.code.replace('let x := calldataload(32) let y := calldataload(64)', 'let x := 3 let y := sload(0)');
    const ins = seqInputs(job.prop, job.depth === 3 && job.tier === 'quick' ? 'quick' : job.tier);
    return explore(sn, job.opts, () => ins, rep, job, free ? { by: 'chainid()' } : {});
  }
  await explore(family(job.prop, job.fam, job.tier, job.opts), job.opts, null, rep, job, job.place ? { place: job.place, batch: /^(top|deploy)$/.test(job.place) ? 60 : 160 } : {});
}
const EXTRA = {};
// Join this layer to a check of the runtime library; extra: further families of the property, { jobs(tier), exec(job, rep), bounds(tier) }
function join(prop, check, extra) {
  if (extra) EXTRA[prop] = extra;
  return {
    ...check,
    technique: check.technique + '; and exhaustive enumeration of argument forms, argument words and statement sequences in compiled contracts, in lockstep with a reference interpreter of the Yul specification',
    needs: [...new Set([...check.needs, 'drv'])],
    bounds: t => check.bounds(t) + '; compiled contracts: ' + bounds(prop, t),
    assumptions: [...(check.assumptions || []), 'in contracts, the reference interpreter (lib/yulref.js) states the Yul semantics'],
    conformance: 'every explored state is an execution of the real runtime library, or of the wasm that the real frontend, code generator, runtime library and LLVM emit',
    jobs: async t => [...jobs(prop, t), ...await check.jobs(t)],
    exec: (job, rep) => (job.c ? exec(job, rep) : check.exec(job, rep)),
    done: async () => { if (check.done) await check.done(); require('./clayer').stop(); },
  };
}
function bounds(prop, t) {
  const n = (OPS[prop] || []).length, s = SEQ[prop] && Object.keys(SEQ[prop]).length;
  return [n && `every argument of ${[...new Set(OPS[prop].map(o => o[0]))].join(', ')} in ${FORMS.length} forms and as literals of up to ${Math.max(...OPS[prop].flatMap(o => o[1].map(k => T[k][0].length)))} words, products of the argument sets, every bit of every argument changed and back in one run${CONTENT[prop] ? ' and of the bytes it works on' : ''}, each in ${PLACES.length} places`, s && `all sequences of up to 3 of ${s} statements`, EXTRA[prop] && EXTRA[prop].bounds && EXTRA[prop].bounds(t), `${OPTS[t].length + 1} option sets`].filter(Boolean).join('; ');
}
module.exports = { join, jobs, exec, family, seqs, EXTRA, OPS, world, bounds, bytes, EXT, OPTS };
