'use strict';
// C18: user-defined functions.
const { explore, product, inputs, permutations, stop } = require('../lib/clayer');
const C = require('../lib/contract');
const A = require('../lib/arith');
const { World, runWasm } = require('../lib/host');
const { parse, Ref } = require('../lib/yulref');
const W = require('../lib/words');
const { hex, toBE } = require('../lib/u256');
const B = (a, n = 0n) => (1n << BigInt(a)) + n;
const OPTIONS = ['O0', 'O1', 'O3', 'bytes32', 'bytes32,O0', 'disopt', 'minify', 'allopt,le', 'noinline', 'debug'];
const QUICK = ['O0', 'bytes32', 'minify', 'allopt,le'];
const WORDS = [0n, 1n, B(32, 5n), B(64), B(255, 3n), W.M];
const rng = n => [...Array(n).keys()];
const cd = i => `calldataload(${32 + 32 * i})`;
const LG = 'function lg(x) -> r { log1(0, 0, x) r := x }';
const ID = 'function idf(x) -> r { r := x }';

// ---- arity: p parameters, r results, which results are assigned, how the call is used ---------------------------
function arity(T) {
  const sn = [];
  for (const p of rng(T ? 9 : 6)) for (const r of rng(T ? 7 : 5)) for (const asg of r > 4 ? [0, (1 << r) - 1, 5] : rng(1 << r)) {
    const ps = rng(p).map(i => `a${i}`), rs = rng(r).map(i => `r${i}`);
    const val = j => (p ? `add(mul(${ps[j % p]}, ${j + 2}), ${ps[(j + 1) % p]})` : `${j + 40}`);
    const f = `function f${p}_${r}_${asg}(${ps.join(', ')}) ${r ? '-> ' + rs.join(', ') : ''} { ${ps.map(a => `log1(0, 0, ${a})`).join(' ')} ${rs.map((x, j) => ((asg >> j) & 1 ? `${x} := ${val(j)}` : '')).join(' ')} }`;
    const n = `f${p}_${r}_${asg}`, args = rng(p).map(i => ['calldataload(32)', `${i + 7}`, 'calldatasize()', `add(calldataload(64), ${i})`][i % 4]).join(', ');
    const logs = rng(r).map(j => `log1(0, 0, v${j})`).join(' '), vs = rng(r).map(j => `v${j}`);
    const key = `${p} parameters, ${r} results, assigned ${asg.toString(2).padStart(r, '0')}`;
    if (!r) sn.push({ key, code: `${n}(${args}) ${n}(${args})`, funs: [f] });
    else {
      sn.push({ key: key + ', let', code: `let ${vs.join(', ')} := ${n}(${args}) ${logs}`, funs: [f] });
      sn.push({ key: key + ', assignment', code: `${vs.map(v => `let ${v} := not(0)`).join(' ')} ${vs.join(', ')} := ${n}(${args}) ${logs}`, funs: [f] });
      sn.push({ key: key + ', assignment to uninitialised', code: `let ${vs.join(', ')} for { let k := 0 } lt(k, 2) { k := add(k, 1) } { ${vs.slice().reverse().join(', ')} := ${n}(${args}) } ${logs}`, funs: [f] });
      if (r > 1) sn.push({ key: key + ', swapped', code: `let ${vs.join(', ')} := ${n}(${args}) ${[...vs.slice(1), vs[0]].join(', ')} := ${n}(${args}) ${logs}`, funs: [f] });
      if (r === 1) sn.push({ key: key + ', nested', code: `log1(0, 0, add(${n}(${args}), ${n}(${args}))) if ${n}(${args}) { log1(0, 0, 1) } switch ${n}(${args}) case 0 { log1(0, 0, 2) } default { log1(0, 0, 3) }`, funs: [f] });
    }
  }
  return sn;
}
// ---- values of every kind as arguments and as results -------------------------------------------------------------
function forms() {
  const sn = [], F = A.FORMS;
  const bodies = { copy: 'r := x', add: 'r := add(x, 1)', overwrite: 'x := add(x, 3) r := x', store: 'mstore(0, x) r := mload(0)', narrow: 'r := lt(x, 5)', viaLocal: 'let t := x x := 9 r := t', cond: 'if x { r := x leave } r := 77', slot: 'sstore(9, x) r := sload(9)', size: 'r := calldatasize() if gt(x, 3) { r := x }' };
  for (const f of Object.keys(F)) for (const [b, body] of Object.entries(bodies)) {
    const p = F[f](0), fn = `function g_${b}(x) -> r { ${body} }`;
    sn.push({ key: `argument ${f}, body ${b}`, code: `${p.p || ''} let q := g_${b}(${p.e}) log2(0, 0, q, ${/^v0$/.test(p.e) ? 'v0' : '1'}) mstore(0, q) return(0, 32)`, funs: [ID, fn], p });
    const fn2 = `function h_${f}_${b}(z) -> y, r { let x := z ${(p.p || '').replace(/calldataload\(32\)/g, 'z')} let w := ${p.e.replace(/calldataload\(32\)/g, 'z')} ${body.replace(/\bx\b/g, 'w')} y := w }`;
    sn.push({ key: `result ${f}, body ${b}`, code: `let y, q := h_${f}_${b}(calldataload(32)) log2(0, 0, y, q)`, funs: [ID, fn2], p });
  }
  return sn;
}
const formInputs = ws => s => ws.map(w => { const o = {}; if (s.p && s.p.w === 'rand') o.prevrandao = toBE(w); if (s.p && s.p.w === 'time') o.timestamp = w & (B(64) - 1n); return { words: [w], o }; });
// ---- argument evaluation order ------------------------------------------------------------------------------------
const BUILT = { add: 2, sub: 2, mul: 2, div: 2, sdiv: 2, mod: 2, smod: 2, exp: 2, signextend: 2, addmod: 3, mulmod: 3, lt: 2, gt: 2, slt: 2, sgt: 2, eq: 2, and: 2, or: 2, xor: 2, byte: 2, shl: 2, shr: 2, sar: 2, keccak256: 2 };
const VOID = { mstore: 2, mstore8: 2, sstore: 2, tstore: 2, mcopy: 3, calldatacopy: 3, codecopy: 3, returndatacopy: 3, extcodecopy: 4, log0: 2, log1: 3, log2: 4, log3: 5, log4: 6, return: 2, revert: 2 };
const CALLS = { call: 7, delegatecall: 6, staticcall: 6, create: 3, create2: 4 };
function order(T) {
  const sn = [], fns = [LG, 'function u2(a, b) -> r { r := sub(a, mul(b, 3)) }', 'function u3(a, b, c) -> r { r := sub(a, sub(b, mul(c, 5))) }', 'function v3(a, b, c) { log3(0, 0, a, b, c) }', 'function u5(a, b, c, d, e) -> r { r := add(a, mul(3, add(b, mul(3, add(c, mul(3, add(d, mul(3, e)))))))) }', 'function sm(x) -> r { r := mload(0) mstore(0, x) }', 'function ss(x) -> r { r := sload(1) sstore(1, x) }', 'function st(x) -> r { r := tload(1) tstore(1, x) }', 'function rv() -> r { mstore(0, 77) revert(0, 32) }', 'function rt() -> r { mstore(0, 78) return(0, 32) }', 'function iv() -> r { invalid() }'];
  const add = (key, code, inp) => sn.push({ key: 'order ' + key, code, funs: fns, inputs: inp });
  const lg = k => `lg(${k})`;
  for (const [f, n] of Object.entries(BUILT)) add(f, `log1(0, 0, ${f}(${rng(n).map(i => lg(i * 3 + 1)).join(', ')}))`);
  // memory-moving builtins get offsets that differ
  for (const [f, n] of Object.entries(VOID)) add(f, `mstore(0, 0x1122334455) ${f}(${rng(n).map(i => lg(i + 1)).join(', ')}) log0(0, 64)`.replace('returndatacopy(lg(1), lg(2), lg(3))', 'returndatacopy(lg(1), lg(0), lg(0))'));
  for (const [f, n] of Object.entries(CALLS)) add(f, f.startsWith('create') ? `mstore(0, shl(224, 28)) log1(0, 0, ${f}(${['lg(3)', 'lg(0)', 'lg(32)', 'lg(9)'].slice(0, n).join(', ')}))` : `log1(0, 0, ${f}(${rng(n).map(i => lg(i + 1)).join(', ')}))`, [{ o: { calls: [{ status: 0, data: new Uint8Array(40).fill(7) }] } }]);
  for (const [f, n] of Object.entries({ u2: 2, u3: 3, u5: 5 })) add(f, `log1(0, 0, ${f}(${rng(n).map(i => lg(i + 1)).join(', ')}))`);
  add('void user', 'v3(lg(1), lg(2), lg(3))');
  // nested: all binary trees over 3 and 4 leaves and operators
  const tr = (l, ops) => (l.length === 1 ? [lg(l[0])] : rng(l.length - 1).flatMap(i => tr(l.slice(0, i + 1), ops).flatMap(a => tr(l.slice(i + 1), ops).flatMap(b => ops.map(o => `${o}(${a}, ${b})`)))));
  for (const t of [...tr([1, 2, 3], ['sub', 'u2', 'xor', 'lt', 'shl']), ...tr([1, 2, 3, 4], ['sub', 'u2'])]) add(t, `log1(0, 0, ${t})`);
  // readers beside writers
  const rd = { mload: 'mload(0)', sload: 'sload(1)', tload: 'tload(1)', msize: 'msize()', keccak: 'keccak256(0, 32)', idm: 'u2(mload(0), 1)', var: 'x' };
  const wr = { sm: 'sm(5)', ss: 'ss(6)', st: 'st(7)', msz: 'mload(320)', rv: 'rv()', rt: 'rt()', iv: 'iv()' };
  const ops = ['add', 'sub', 'eq', 'xor', 'u2', 'shl', 'div', 'lt', 'exp', 'and'];
  for (const o of ops) for (const [a, x] of Object.entries(rd)) for (const [b, y] of Object.entries(wr)) { add(`${o} ${a} ${b}`, `mstore(0, 3) sstore(1, 4) tstore(1, 8) let x := mload(0) log1(0, 0, ${o}(${x}, ${y})) log0(0, 32)`); add(`${o} ${b} ${a}`, `mstore(0, 3) sstore(1, 4) tstore(1, 8) let x := mload(0) log1(0, 0, ${o}(${y}, ${x})) log0(0, 32)`); }
  for (const a of Object.keys(wr)) for (const b of Object.keys(wr)) for (const f of ['u2', 'sub', 'mstore', 'sstore', 'log0', 'return', 'revert', 'lt', 'v2']) add(`${f} ${a} ${b}`, `mstore(0, 3) sstore(1, 4) tstore(1, 8) ${['mstore', 'sstore', 'log0', 'return', 'revert'].includes(f) ? `${f}(${wr[a]}, ${wr[b]})` : f === 'v2' ? `v3(${wr[a]}, 1, ${wr[b]})` : `log1(0, 0, ${f}(${wr[a]}, ${wr[b]}))`}`);
  // more writers side by side
  for (const p of permutations(['sm(5)', 'mload(0)', 'sm(9)'])) { add('u3 ' + p, `mstore(0, 3) log1(0, 0, u3(${p.join(', ')}))`); add('v3 ' + p, `mstore(0, 3) v3(${p.join(', ')})`); add('addmod ' + p, `mstore(0, 3) log1(0, 0, addmod(${p.join(', ')}))`); add('log ' + p, `mstore(0, 3) log3(0, 32, ${p.join(', ')})`); }
  return sn;
}
// ---- call graphs, definition orders, recursion ---------------------------------------------------------------------
function graphs(T) {
  const sn = [];
  const N = T ? 4 : 3, prs = [];
  for (let i = 0; i < N; i++) for (let j = i + 1; j < N; j++) prs.push([i, j]);
  for (let m = 0; m < 1 << prs.length; m++) for (const [pi, perm] of permutations(rng(N)).entries()) {
    const calls = i => prs.filter((e, k) => ((m >> k) & 1) && e[0] === i).map(e => e[1]);
    const name = i => `n${m}_${pi}_${i}`;
    const def = i => `function ${name(i)}(x) -> r { let k := mul(x, ${i + 2}) log1(0, 0, k) ${calls(i).map(j => `r := add(r, ${name(j)}(add(k, ${j})))`).join(' ')} r := add(r, k) }`;
    sn.push({ key: `call graph ${m} definition order ${perm}`, code: `mstore(0, ${name(0)}(calldataload(32))) return(0, 32)`, funs: perm.map(def), inputs: [{ words: [1n] }, { words: [B(255, 9n)] }] });
  }
  return sn;
}
function recursion() {
  const R = {
    fib: ['fib(min(calldataload(32), 11))', 'function fib(n) -> r { if lt(n, 2) { r := n leave } r := add(fib(sub(n, 1)), fib(sub(n, 2))) }'],
    sum: ['sum(min(calldataload(32), 200))', 'function sum(n) -> r { if iszero(n) { leave } let t := mul(n, n) r := add(sum(sub(n, 1)), t) }'],
    even: ['even(min(calldataload(32), 99))', 'function even(n) -> r { if iszero(n) { r := 1 leave } r := odd(sub(n, 1)) }', 'function odd(n) -> r { if iszero(n) { leave } r := even(sub(n, 1)) }'],
    ack: ['ack(min(calldataload(32), 2), min(calldataload(64), 3))', 'function ack(m, n) -> r { if iszero(m) { r := add(n, 1) leave } if iszero(n) { r := ack(sub(m, 1), 1) leave } r := ack(sub(m, 1), ack(m, sub(n, 1))) }'],
    gcd: ['gcd(calldataload(32), calldataload(64))', 'function gcd(a, b) -> r { if iszero(b) { r := a leave } r := gcd(b, mod(a, b)) }'],
    hanoi: ['hanoi(min(calldataload(32), 5), 1, 2, 3)', 'function hanoi(n, a, b, c) -> r { if iszero(n) { leave } r := hanoi(sub(n, 1), a, c, b) log3(0, 0, n, a, c) r := add(add(r, 1), hanoi(sub(n, 1), b, a, c)) }'],
    locals: ['rl(min(calldataload(32), 20))', 'function rl(n) -> r { let a := n let b := lt(n, 5) let c := calldatasize() let d if n { d := rl(sub(n, 1)) } r := add(add(mul(a, 3), b), add(c, mul(d, 5))) log4(0, 0, a, b, c, d) }'],
    loop: ['rp(min(calldataload(32), 4))', 'function rp(n) -> r { for { let i := 0 } lt(i, n) { i := add(i, 1) } { r := add(r, add(i, rp(i))) log2(0, 0, n, i) } }'],
    param: ['rq(min(calldataload(32), 9), not(0))', 'function rq(n, w) -> r { if iszero(n) { r := w leave } let k := w w := shr(13, w) n := sub(n, 1) r := xor(rq(n, w), k) }'],
    multi: ['mb(min(calldataload(32), 7))', 'function mb(n) -> r { let a, b := pair(n) r := xor(a, shl(100, b)) }', 'function pair(n) -> a, b { if iszero(n) { b := 1 leave } let c, d := pair(sub(n, 1)) a := d b := add(c, d) log2(0, 0, a, b) }'],
  };
  const min = 'function min(a, b) -> r { r := a if gt(a, b) { r := b } }';
  return Object.entries(R).map(([k, [e, ...f]]) => ({ key: 'recursion ' + k, code: `let q := ${e} mstore(0, q) return(0, 32)`, funs: [...f, min], inputs: inputs([0n, 1n, 2n, 3n, 5n, 7n, 10n, 99n, W.M, B(64)], [0n, 1n, 3n, B(128)]) }));
}
// ---- identical and similar functions ---------------------------------------------------------------------------------
const BODIES = [
  'r := x', 'r := add(x, 0)', 'r := y', 'r := sub(x, y)', 'r := sub(y, x)', 'r := add(x, 1)', 'r := add(x, 2)', 'r := 1', 'r := 0', '', 'log1(0, 0, x)', 'log1(0, 0, y)', 'r := mload(x)', 'r := sload(x)', 'r := 0x01', 'r := shl(x, y)', 'r := shr(x, y)', 'r := shr(y, x)',
  'if x { r := y }', 'if y { r := x }', 'if iszero(x) { r := y }', 'switch x case 0 { r := 1 } default { r := 2 }', 'switch x case 1 { r := 1 } default { r := 2 }', 'switch x case 0 { r := 2 } default { r := 1 }', 'let t := x r := t', 'let t := y r := t',
  'revert(0, 0)', 'revert(0, 32)', 'revert(0, x)', 'revert(0x00, 0)', 'revert(0, 0) r := 1', 'if x { revert(0, 0) }', 'return(0, 0)', 'stop()', 'invalid()', 'r := lt(x, y)', 'r := slt(x, y)', 'r := gt(y, x)', 'for { } lt(r, 3) { r := add(r, 1) } { }', 'for { } lt(r, 2) { r := add(r, 1) } { }', 'leave', 'r := 1 leave', 'r := "a"', 'r := "b"', 'sstore(x, y)', 'sstore(y, x)', 'tstore(x, y)', '{ r := x }', 'x := y r := x', 'let z := revertz(0, 0) r := z',
];
function similar(T) {
  const sn = [];
  const use = (n, m) => `log1(0, 0, ${n}(calldataload(32), calldataload(64))) log1(0, 0, ${m}(calldataload(64), calldataload(32))) log1(0, 0, ${n}(5, 9))`;
  const RZ = 'function revertz(x, y) -> r { log1(0, 0, 66) }';
  BODIES.forEach((a, i) => BODIES.forEach((b, j) => {
    if (!T && i > j && (i + j) % 3) return;
    sn.push({ key: `bodies {${a}} and {${b}}`, code: use(`p${i}_${j}`, `q${i}_${j}`), funs: [`function p${i}_${j}(x, y) -> r { ${a} }`, `function q${i}_${j}(x, y) -> r { ${b} }`, RZ], inputs: inputs([0n, 1n, B(64, 2n)], [0n, 3n]) });
  }));
  // functions that only revert with nothing: calls in every position, with arguments that act
  const rz = ['function z0() { revert(0, 0) }', 'function z1(x) { revert(0, 0) }', 'function z2(x) -> r { revert(0, 0) }', 'function z3(x, y) -> r, s { revert(0, 0) }', 'function za() { revert(0x0, 0x00) }', 'function zb() -> r { revert(0, 0) }', 'function zc() { revert(0, 32) }', 'function zd() { revert(0, returndatasize()) }', 'function ze() { return(0, 0) }', 'function rt() -> r { mstore(0, 78) return(0, 32) }', 'function rv() -> r { mstore(0, 77) revert(0, 32) }', LG];
  const calls = ['z0()', 'z1(5)', 'z1(rt())', 'z1(rv())', 'z1(lg(5))', 'let v := z2(1) log1(0, 0, v)', 'let v := z2(rt()) log1(0, 0, v)', 'let v v := z2(1)', 'let v, w := z3(1, 2) log1(0, 0, v)', 'let v, w v, w := z3(1, rt()) log1(0, 0, v)', 'za()', 'log1(0, 0, zb())', 'mstore(0, add(zb(), 1)) return(0, 32)', 'zc()', 'zd()', 'ze()', 'if zb() { log1(0, 0, 1) }', 'for { } zb() { } { }', 'switch zb() case 0 { } default { log1(0, 0, 3) }', 'sstore(zb(), rt())', 'sstore(rt(), zb())', 'log1(0, 0, lg(zb()))', 'mstore(0, zb()) return(0, 32)', 'let v := add(zb(), zb()) return(v, 32)', 'pop(zb())', 'pop(z2(rt()))'];
  for (const c of calls) for (const pre of ['', 'if calldataload(32) { ', 'for { let i := 0 } lt(i, calldataload(32)) { i := add(i, 1) } { ', 'switch calldataload(32) case 0 { log1(0, 0, 1) } default { ']) sn.push({ key: `empty revert ${pre}${c}`, code: pre ? `${pre} ${c} } log1(0, 0, 9)` : c + ' log1(0, 0, 9)', funs: rz, inputs: inputs([0n, 1n, B(128)]) });
  // functions of one statement that ends the transaction, with arguments that act
  const act = ['0', '0x00', '32', 'rt()', 'rv()', 'lg(0)', 'lg(32)', 'iv()', 'mload(0)', 'sub(1, 1)', '"" ', 'false', 'returndatasize()', 'calldataload(64)'], IV = 'function iv() -> r { invalid() }';
  for (const [k, f] of ['revert', 'return'].entries()) for (const [i, a] of act.entries()) for (const [j, b] of act.entries()) {
    if (!T && k && (i + j) % 4) continue;
    const n = `only_${f}_${i}_${j}`;
    sn.push({ key: `only ${f}(${a}, ${b})`, code: `mstore(64, 128) sstore(1, 2) switch calldataload(32) case 0 { ${n}() } case 1 { ${n}_p(rt()) } default { log1(0, 0, ${n}_r()) ${n}() }`, funs: [`function ${n}() { ${f}(${a}, ${b}) }`, `function ${n}_p(x) { ${f}(${a}, ${b}) }`, `function ${n}_r() -> r { ${f}(${a}, ${b}) }`, ...rz.slice(-3), IV], inputs: inputs([0n, 1n, 2n], [0n, 3n]) });
  }
  return sn;
}
// ---- names ---------------------------------------------------------------------------------------------------------
function names() {
  const sn = [];
  const shapes = [
    [3, 0, 'sstore(a, b) log1(0, 0, c)'], [3, 1, 'r := add(a, mul(b, c))'], [2, 1, 'r := sub(a, b)'], [1, 1, 'if iszero(eq(a, and(a, sub(shl(160, 1), 1)))) { revert(0, 0) } r := a'], [2, 1, 'let v := calldataload(a) if iszero(eq(v, and(v, sub(shl(160, 1), 1)))) { revert(0, 64) } r := v'],
    [1, 1, 'let t := and(a, 0xffffffffffffffffffffffffffffffffffffffff) if iszero(eq(t, a)) { log1(0, 0, 7) revert(0, 0) } r := iszero(t)'], [3, 2, 'r := iszero(a) s := iszero(b) if iszero(c) { r := c }'], [0, 1, 'r := 7'], [0, 0, 'log1(0, 0, 3)'],
    [3, 0, 'let f := and(a, sub(shl(160, 1), 1)) if iszero(f) { mstore(0, 1) revert(0, 32) } if iszero(iszero(b)) { log2(0, 0, f, c) }'], [3, 1, 'if iszero(a) { r := 1 } if iszero(b) { r := 2 } if iszero(c) { r := 3 } if iszero(iszero(add(a, b))) { r := add(r, 4) }'],
  ];
  const nm = ['fun_transfer', 'fun__transfer', 'fun_transfer_12', 'init', 'exit', 'T.init', 'T_deployed.init', 'deploy', 'T_deployed.T_deployed.init', 'x_fun_transferFrom', 'abi_decode_address', 'abi_decode_t_address', 'abi_decode_addresst_address', 'my_abi_decode_address_fromMemory', 'shift_right_224_unsigned', 'transfer', 'fun_approve', '_mint', 'memcpy', 'memset', 'memcmp', 'malloc', 'main', 'memory', 'deploy_', 'abort', '_start', 'wrapper_mload', 'wrapper_return', 'finish', 'sload_', 'getCaller', 'printf', 'strlen', 'f.g', 'f$', 'f$_$', '_', '__', 'a.b$c_d', 'F', 'returns', 'lets', 'iff', 'object_', 'code1', 'data_', 'datax', 'case_', 'hexx', 'true_', 'revert_error_0', 'unified_revert_zero', 'llvm.trap', 'llvm', 'entry', 'i32', 'u256', 'x'.repeat(60), 'keccak256_', 'exp_by_squaring', 'shl_bytes32', 'chain_math_exp', 'tuple', 'T_deployed', 'T_deployed_t_0', 'safe_malloc', 'emit_log_event'];
  for (const n of nm) for (const [k, [p, r, body]] of shapes.entries()) {
    const ps = ['a', 'b', 'c'].slice(0, p), rs = ['r', 's'].slice(0, r), id = `${n}`;
    const args = [`calldataload(32)`, `calldataload(64)`, `calldataload(96)`].slice(0, p).join(', ');
    sn.push({ key: `function named ${n}, shape ${k}`, code: r ? `let ${rs.map(x => 'v' + x).join(', ')} := ${id}(${args}) ${rs.map(x => `log1(0, 0, v${x})`).join(' ')}` : `${id}(${args}) log1(0, 0, 8)`, funs: [`function ${id}(${ps.join(', ')}) ${r ? '-> ' + rs.join(', ') : ''} { ${body} }`], k });
  }
  return [...shapes.keys()].map(k => sn.filter(s => s.k === k)); // one batch per shape: names are unique within it
}
// ---- the same names in the two objects -------------------------------------------------------------------------------
async function objects(job, rep) {
  let no = 0;
  const bodies = ['r := 1', 'r := add(x, 1)', 'r := mload(0)', 'revert(0, 0)', 'r := sload(x)', '', 'if x { r := 5 }', 'log1(0, 0, x) r := x'];
  for (const a of bodies) for (const b of bodies) for (const [n, m] of [['f', 'f'], ['f', 'g'], ['fun_transfer', 'fun_transfer']]) for (const nm of ['T', 'Token', 'MyERC20_12', 'a.b']) {
    if (no++ % job.of !== job.at) continue;
    const key = `deploy ${n} {${a}}, runtime ${m} {${b}} in ${nm}`;
    if (job.only && job.only !== key) continue;
    const use = f => `mstore(0, ${f}(calldataload(0))) mstore(32, ${f}(7)) log0(0, 64) return(0, 64)`;
    const ca = `${use(n)} function ${n}(x) -> r { ${a} }`, cb = `function ${m}(x) -> r { ${b} } ${use(m)}`;
    const r = await C.compiler().compile(`object "${nm}" { code { ${ca} } object "${nm}_deployed" { code { ${cb} } } }`, job.opts);
    rep.state(); rep.trace();
    if (!r.ok) { rep.viol(key + ' compile' + (job.opts ? ` [${job.opts}]` : ''), `does not compile (${r.err}): ${String(r.msg).slice(0, 300)}`, { ...job, only: key }); continue; }
    const mod = new WebAssembly.Module(r.ok);
    for (const [e, src] of [['deploy', ca], ['call', cb]]) for (const w of [0n, 1n, B(64)]) {
      rep.state(); rep.step(); rep.trace();
      const w1 = new World({ calldata: toBE(w), storage: new Map([[1n, 55n], [7n, 66n]]) }), w2 = new World({ calldata: toBE(w), storage: w1.storage });
      const got = C.norm(runWasm(mod, e, w1)), want = new Ref(w2, {}).run(parse(src));
      const x = C.show(got, w1), y = C.show(want, w2);
      if (want.kind === 'trap' && got.kind === 'trap') continue;
      if (x !== y) rep.viol(key + ' ' + e + (job.opts ? ` [${job.opts}]` : ''), `word ${hex(w)}: expected ${y}, got ${x}`, { ...job, only: key }); else rep.cls('agrees');
    }
  }
}
function groups(tier) {
  const T = tier === 'thorough', g = [];
  const two = () => inputs([3n, B(64, 5n), W.M], [0n, B(200)]);
  const slice = (name, f, inp, opts, k, batch) => { for (let at = 0; at < k; at++) g.push({ name, opts, sn: () => f().filter((_, i) => i % k === at), inputs: inp, batch }); };
  const O = ['', ...(T ? OPTIONS : QUICK)];
  for (const o of O) {
    const main = o === '';
    slice('arity', () => arity(T && main), two, o, main ? 4 : 2);
    slice('forms', forms, formInputs(main || T ? W.core : WORDS), o, main ? 4 : 1);
    slice('order', () => (main || T ? order(T) : order(T).filter((_, i) => i % 3 === 0 || i < 60)), () => [{ words: [] }], o, main ? 4 : 2);
    slice('graphs', () => graphs(T && main), null, o, main && T ? 8 : 1);
    slice('recursion', recursion, null, o, 1);
    if (main || T || ['O0', 'O3', 'minify', 'allopt,le', 'bytes32'].includes(o)) slice('similar', () => (main || T ? similar(T) : similar(false).filter((_, i) => i % 3 === 0)), null, o, main ? 8 : 1);
    // with every optimizer on, functions named fun_transfer are taken for Solidity's; see C16
    if (o !== 'allopt,le') for (let k = 0; k < 11; k++) g.push({ name: 'names', opts: o, sn: () => names()[k], inputs: () => inputs([0n, 5n, B(160, 1n), W.M], [0n, B(255)], [0n, 1n]), batch: 100 });
  }
  for (const place of ['top', 'deploy']) for (const base of g.filter(x => x.opts === '' && ['arity', 'forms', 'order', 'recursion', 'graphs'].includes(x.name))) g.push({ ...base, place, batch: 60, sn: () => base.sn().filter((s, i) => (T || i % 4 === 0) && !/\bleave\b/.test(s.code)) });
  return g;
}
module.exports = {
  parts: { arity: () => arity(false), order: () => order(false), recursion, similar: () => similar(false) },
  technique: 'exhaustive enumeration of function arities, argument and result forms, evaluation orders, call graphs x definition orders, recursion schemes, pairs of function bodies and names; every program compiled and compared with a reference interpreter of the Yul specification',
  needs: ['std', 'drv'],
  bounds: t => `up to ${t === 'thorough' ? 8 : 5} parameters x ${t === 'thorough' ? 6 : 4} results x subsets of assigned results x 4 call forms; 23 argument forms x 9 bodies; ${Object.keys(BUILT).length + Object.keys(VOID).length + Object.keys(CALLS).length} builtins and user functions with acting arguments, all expression trees of 3 (5 operators) and 4 leaves, readers beside writers; all acyclic call graphs of ${t === 'thorough' ? 4 : 3} functions x definition orders; ${BODIES.length} bodies in pairs; 60 names x 11 shapes; ${(t === 'thorough' ? OPTIONS : QUICK).length + 1} option sets`,
  assumptions: ['the reference interpreter (lib/yulref.js) states the Yul semantics', 'nested function definitions are outside the supported grammar'],
  conformance: 'every explored program is run on the wasm that the real frontend, code generator, runtime library and LLVM emit',
  jobs: tier => [...groups(tier).map((g, i) => ({ i, tier, name: g.name, opts: g.opts, place: g.place })), ...['', 'O0', 'bytes32', 'minify'].slice(0, tier === 'thorough' ? 4 : 1).flatMap(opts => rng(16).map(at => ({ objects: true, opts, tier, at, of: tier === 'thorough' ? 16 : 64 })))],
  async exec(job, rep) {
    if (job.objects) return objects(job, rep);
    const g = groups(job.tier)[job.i];
    await explore(g.sn(), job.opts, g.inputs, rep, job, { batch: g.batch, place: g.place });
  },
  done: () => stop(),
};
