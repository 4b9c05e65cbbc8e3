'use strict';
// C19: variables and scopes.
const { explore, product, inputs, stop } = require('../lib/clayer');
const A = require('../lib/arith');
const W = require('../lib/words');
const { toBE } = require('../lib/u256');
const B = (a, n = 0n) => (1n << BigInt(a)) + n;
const OPTIONS = ['O0', 'O1', 'O3', 'bytes32', 'bytes32,O0', 'disopt', 'minify', 'allopt,le', 'noinline', 'debug'];
const QUICK = ['O0', 'bytes32', 'bytes32,O0', 'minify'];
const rng = n => [...Array(n).keys()];
const cd = i => `calldataload(${32 + 32 * i})`;
const FUNS = ['function idf(x) -> r { r := x }', 'function two(x) -> r, s { r := x s := not(x) }', 'function bit(x) -> r { r := lt(x, 5) }', 'function zero() -> r { }'];
// value forms: everything the code generator gives its own representation
const E = {
  none: null, zero: '0', one: '1', big: '0x1122334455667788990011223344556677889900112233445566778899001122', u32: '0xffffffff', u64: '0xffffffffffffffff', str: '"abc"', tru: 'true',
  cd: cd(0), cd1: cd(1), not: 'not(0)', bool: `lt(${cd(0)}, 5)`, isz: `iszero(${cd(0)})`, size: 'calldatasize()', time: 'timestamp()', rand: 'prevrandao()', addr: 'caller()', sl: 'sload(1)', tl: 'tload(1)', ml: 'mload(160)', kec: 'keccak256(160, 32)', fn: `idf(${cd(0)})`, bit: `bit(${cd(0)})`, zf: 'zero()',
  sum: `add(${cd(0)}, 1)`, mulx: `mul(${cd(0)}, ${cd(1)})`, and: `and(${cd(0)}, 0xff)`, sel: `shr(224, ${cd(0)})`, sx: `signextend(0, ${cd(0)})`, msz: 'msize()', gas: 'gaslimit()', val: 'callvalue()', bh: 'blockhash(5)', bal: 'selfbalance()',
};
const PRE = `sstore(1, ${cd(0)}) tstore(1, ${cd(1)}) mstore(160, ${cd(0)})`;
const CORE = ['none', 'zero', 'bool', 'cd', 'rand', 'size', 'big'];
const WRAP = {
  plain: s => s, block: s => `{ ${s} }`, if: s => `if ${cd(2)} { ${s} }`, for: s => `for { let k := 0 } lt(k, 2) { k := add(k, 1) } { ${s} }`, post: s => `for { let k := 0 } lt(k, 2) { k := add(k, 1) ${s} } { }`, init: s => `for { ${s} } 0 { } { }`,
  sw: s => `switch ${cd(2)} case 0 { ${s} } default { }`, swd: s => `switch ${cd(2)} case 0 { } default { ${s} }`, deep: s => `if ${cd(2)} { for { let k := 0 } lt(k, 3) { k := add(k, 1) } { if k { { ${s} } break } } }`,
};
const INIT = (x, f) => (E[f] === null ? `let ${x}` : `let ${x} := ${E[f]}`);
const SET = (x, f) => `${x} := ${E[f] === null ? '0' : E[f]}`;
const seen = (...v) => v.map((x, i) => `log2(0, 0, ${x}, ${i})`).join(' ');
function pairForms() { // every initializer, then every assignment, copies made in between stay what they were
  const sn = [];
  for (const a of Object.keys(E)) for (const b of Object.keys(E)) {
    if (b === 'none') continue;
    sn.push({ key: `let ${a}, copy, set ${b}`, code: `${PRE} ${INIT('x', a)} let c := x ${SET('x', b)} let d := x c := add(c, 0) ${seen('x', 'c', 'd')}`, funs: FUNS });
    sn.push({ key: `let ${a}, copy, ${b} in a loop`, code: `${PRE} ${INIT('x', a)} let p for { let i := 0 } lt(i, 3) { i := add(i, 1) } { p := x ${SET('x', b)} if eq(i, 1) { ${SET('x', a)} } ${seen('p', 'x')} } ${seen('p', 'x')}`, funs: FUNS });
  }
  return sn;
}
function wrapped() { // assignments in every place a statement can stand
  const sn = [];
  for (const a of CORE) for (const b of Object.keys(E)) for (const w of Object.keys(WRAP)) if (b !== 'none') sn.push({ key: `let ${a}, ${w}{set ${b}}`, code: `${PRE} ${INIT('x', a)} ${WRAP[w](SET('x', b))} ${seen('x')} if x { ${seen('x')} }`, funs: FUNS });
  return sn;
}
function sequences(T) { // declarations of two variables and two operations, each wrapped
  const ops = [];
  for (const [x, y] of [['x', 'y'], ['y', 'x']]) { for (const f of ['zero', 'bool', 'cd', 'rand', 'size']) ops.push(SET(x, f)); ops.push(`${x} := ${y}`); }
  ops.push('let t := x x := y y := t', 'x, y := two(y)', 'y, x := two(x)', '{ let z := x x := add(z, 1) }', 'let z := y z := add(z, x) y := z', `x := add(x, y)`);
  const sn = [], w1 = T ? ['plain', 'if', 'for', 'sw'] : ['plain', 'if'], w2 = ['plain', 'if', 'for'];
  for (const a of ['none', 'bool', 'cd', 'rand', ...(T ? ['size', 'zero'] : [])]) for (const b of ['none', 'zero', 'size', 'rand', ...(T ? ['cd', 'bool'] : [])]) for (const [i, o] of ops.entries()) for (const u of w1) for (const [j, p] of ops.entries()) for (const v of w2) {
    if (!T && (i + j) % 2 && u !== 'plain') continue;
    const clash = /let [tz] /; const o2 = u === 'plain' && clash.test(o) ? `{ ${o} }` : o, p2 = v === 'plain' && clash.test(p) ? `{ ${p} }` : p;
    sn.push({ key: `${INIT('x', a)} ${INIT('y', b)}; ${u}{${o}}; ${v}{${p}}`, code: `${PRE} ${INIT('x', a)} ${INIT('y', b)} ${WRAP[u](o2)} ${WRAP[v](p2)} ${seen('x', 'y')}`, funs: FUNS });
  }
  return sn;
}
// scopes: trees of blocks in which the same names are declared again after the earlier ones ended, outer ones assigned
function scopes(T) {
  const sn = [];
  // a scope: list of items; items: D declare next name, S set outer, block kinds with child scopes
  const kinds = ['{', 'if', 'for', 'sw', 'fi'];
  const gen = n => { // forests of scopes with n nodes
    if (n === 0) return [[]];
    const r = [];
    for (let m = 1; m <= n; m++) for (const k of kinds) for (const c of gen(m - 1)) for (const rest of gen(n - m)) r.push([[k, c], ...rest]);
    return r;
  };
  const inits = ['none', 'bool', 'cd', 'rand', 'zero'];
  let k = 0, q = 0;
  const text = (f, depth, vars, sh) => {
    let s = '';
    for (const [kind, c] of f) {
      const v = `v${depth}`; // siblings at one depth share a name
      const f1 = inits[(q++ + sh) % inits.length], set = vars.map((o, i) => `${o} := add(${o}, ${v}) `).join('');
      const body = `${INIT(v, f1)} log1(0, 0, ${v}) ${set} ${text(c, depth + 1, [...vars, v], sh)} log1(0, 0, ${v}) ${v} := not(${v}) log1(0, 0, ${v})`;
      s += kind === '{' ? `{ ${body} } ` : kind === 'if' ? `if ${cd(2)} { ${body} } ` : kind === 'for' ? `for { let i${depth} := 0 } lt(i${depth}, 2) { i${depth} := add(i${depth}, 1) } { ${body} } ` : kind === 'sw' ? `switch ${cd(2)} case 0 { ${body} } default { ${body} } ` : `for { ${body} } lt(${v}, 3) { ${v} := add(${v}, 2) } { log1(0, 0, ${v}) break } `;
    }
    return s;
  };
  for (let n = 1; n <= (T ? 4 : 3); n++) for (const f of gen(n)) for (const sh of n > 2 && !T ? [0] : [0, 1, 2]) {
    q = 0; const names = `let o := ${cd(0)} `;
    const show = f => f.map(([k, c]) => k + '(' + show(c) + ')').join(' ');
    sn.push({ key: `scopes ${show(f)} shift ${sh}`, code: names + text(f, 0, ['o'], sh) + 'log1(0, 0, o)', funs: FUNS, inputs: inputs([0n, B(255, 1n)], [3n], [0n, 1n]) }); k++;
  }
  return sn;
}
// same names in function and caller, parameters and results as variables, many variables, tuple targets in every order
function shared(T) {
  const sn = [];
  const names = ['x', 'r', 'a', 'ret', 'i', 'tmp', '_1', '_2', 'expr_1', 'value0', 'usr$x', 'var_a_12', 'memPtr', 'x.y', 'x'.repeat(80), 'ptr', 'T', 'entry', 'returnn', 'object1', 'hex1', 'datasize_', 'if_', 'falsey', 'truex'];
  for (const n of names) {
    sn.push({ key: `variable named ${n}`, code: `let ${n} := ${cd(0)} { let ${n}1 := ${n} ${n} := add(${n}1, 1) } let q := same_${names.indexOf(n)}(${n}) log2(0, 0, ${n}, q)`, funs: [`function same_${names.indexOf(n)}(${n}2) -> ${n} { ${n} := add(${n}2, 3) ${n}2 := 0 }`] });
  }
  for (const f of Object.keys(E)) {
    sn.push({ key: `parameter set to ${f}`, code: `${PRE} let x := ${cd(0)} let q := ps_${f}(x, 7) ${seen('x', 'q')}`, funs: [...FUNS, `function ps_${f}(x, y) -> r { ${SET('x', f)} r := x { let z := x x := y r := add(r, mul(z, 3)) r := add(r, x) } }`] });
    sn.push({ key: `result set to ${f}`, code: `${PRE} let q, u := rs_${f}(${cd(1)}) ${seen('q', 'u')}`, funs: [...FUNS, `function rs_${f}(x) -> r, s { ${SET('r', f)} s := r if x { ${SET('r', 'rand')} } if lt(x, 5) { s := add(s, r) leave } ${SET('s', f)} }`] });
    sn.push({ key: `local ${f} in a recursive function`, code: `${PRE} let q := rc_${f}(3) ${seen('q')}`, funs: [...FUNS, `function rc_${f}(n) -> r { ${INIT('k', f)} if n { k := add(k, n) r := rc_${f}(sub(n, 1)) } r := add(mul(r, 5), k) }`] });
    sn.push({ key: `loop variable declared as ${f}`, code: `${PRE} for { let n := 0 } lt(n, 3) { n := add(n, 1) } { ${INIT('k', f)} log1(0, 0, k) k := add(k, not(n)) log1(0, 0, k) { let m := k k := 1 log2(0, 0, k, m) } }`, funs: FUNS });
    for (const g of CORE) sn.push({ key: `tuple over ${f}, ${g}`, code: `${PRE} ${INIT('x', f)} ${INIT('y', g)} let c := x let d := y y, x := two(x) ${seen('x', 'y', 'c', 'd')} x, y := two(y) ${seen('x', 'y')}`, funs: FUNS });
    sn.push({ key: `chain of copies of ${f}`, code: `${PRE} ${INIT('x', f)} ${rng(8).map(i => `let c${i} := ${i ? 'c' + (i - 1) : 'x'}`).join(' ')} x := 9 c3 := add(c3, 1) c5 := c3 c6 := calldatasize() ${seen('x', ...rng(8).map(i => 'c' + i))}`, funs: FUNS });
    // memory, storage and return data written after the value was taken
    sn.push({ key: `${f} taken before its source changes`, code: `${PRE} ${INIT('x', f)} let y := x sstore(1, 4) tstore(1, 5) mstore(160, 6) mstore(0, 8) pop(keccak256(0, 64)) pop(prevrandao()) pop(sload(1)) pop(caller()) ${f === 'none' ? '' : `let z := ${E[f]}`} ${seen('x', 'y')}`, funs: FUNS });
  }
  for (const n of [10, 60, 200]) sn.push({ key: `${n} variables`, code: `${rng(n).map(i => `let v${i} := ${Object.values(E).filter(Boolean)[i % 33]}`).join(' ')} ${rng(n).filter(i => i % 3 === 0).map(i => `v${i} := add(v${(i * 7 + 1) % n}, ${i})`).join(' ')} ${rng(n).filter(i => i % (n > 60 ? 5 : 1) === 0).map(i => `log1(0, 0, v${i})`).join(' ')}`, funs: FUNS });
  for (const n of [2, 3, 5, 8]) { const vs = rng(n).map(i => `v${i}`); for (let s = 0; s < n; s++) { const p = rng(n).map(i => vs[(i * (n === 8 ? 3 : 1) + s) % n]); sn.push({ key: `tuple of ${n} shifted ${s}`, code: `let ${vs.join(', ')} := tup${n}(${cd(0)}) ${p.join(', ')} := tup${n}(v1) ${seen(...vs)}`, funs: [`function tup${n}(x) -> ${rng(n).map(i => 'r' + i).join(', ')} { ${rng(n).map(i => `r${i} := mul(x, ${i + 3})`).join(' ')} }`] }); } }
  return sn;
}
const inp = T => s => {
  const ws = T ? [0n, 3n, B(32), B(64, 2n), B(255, 6n), W.M] : [3n, B(64, 2n), W.M], r = [];
  for (const w of ws) for (const c of /calldataload\(96\)/.test(s.code) ? [0n, B(128)] : [1n]) r.push({ words: [w, W.M - w, c], o: { prevrandao: toBE(w ^ (W.M - 12n)), timestamp: w & (B(64) - 1n) } });
  return r;
};
function groups(tier) {
  const T = tier === 'thorough', g = [];
  const slice = (name, f, opts, k, batch) => { for (let at = 0; at < k; at++) g.push({ name, opts, sn: () => f().filter((_, i) => i % k === at), batch }); };
  for (const o of ['', ...(T ? OPTIONS : QUICK)]) {
    const full = o === '' || T;
    slice('pair forms', () => pairForms().filter((_, i) => full || i % 4 === 0), o, full ? 4 : 2);
    slice('wrapped', () => wrapped().filter((_, i) => full || i % 4 === 1), o, full ? 4 : 2);
    slice('shared', () => shared(T), o, 2, 200);
    slice('scopes', () => scopes(T && o === '').filter((_, i) => full || i % 2 === 0), o, T && o === '' ? 8 : 2);
    slice('sequences', () => sequences(T && o === '').filter((_, i) => o === '' || i % (T ? 3 : 16) === 0), o, o === '' ? (T ? 64 : 16) : 4);
  }
  // in the code of the object and of a constructor rather than in a function
  for (const place of ['top', 'deploy']) for (const o of T ? ['', ...OPTIONS] : ['']) {
    const put = (name, f, k, m, batch = 60) => { for (let at = 0; at < k; at++) g.push({ name, opts: o, place, batch, sn: () => f().filter((s, i) => i % m === at && !/\bleave\b/.test(s.code)) }); };
    put('pair forms', pairForms, T ? 4 : 1, T ? 4 : 5); put('wrapped', wrapped, T ? 4 : 1, T ? 4 : 7); put('shared', () => shared(false), 1, T ? 1 : 3, 12); put('scopes', () => scopes(false), 1, T ? 1 : 5, 10); // one large function with many variables overflows the wasm stack: small batches
  }
  return g;
}
module.exports = {
  parts: { pairForms, wrapped, shared: () => shared(false), scopes: () => scopes(false) },
  technique: 'exhaustive enumeration of declaration, copy and assignment sequences over all value forms, scope trees and name reuse; every program compiled and every variable compared with a reference interpreter of the Yul specification',
  needs: ['std', 'drv'],
  bounds: t => `${Object.keys(E).length} initializer forms x ${Object.keys(E).length - 1} assigned forms with copies in between, straight and in loops; ${CORE.length} x ${Object.keys(E).length - 1} forms in ${Object.keys(WRAP).length} statement places; two variables with two operations of 18 in ${t === 'thorough' ? '4 x 3' : '2 x 3'} places; all scope trees of up to ${t === 'thorough' ? 4 : 3} scopes of 5 kinds; parameters, results, recursion, tuples up to 8, up to 200 variables; ${(t === 'thorough' ? OPTIONS : QUICK).length + 1} option sets`,
  assumptions: ['the reference interpreter (lib/yulref.js) states the Yul semantics'],
  conformance: 'every explored program is run on the wasm that the real frontend, code generator, runtime library and LLVM emit',
  jobs: tier => groups(tier).map((g, i) => ({ i, tier, name: g.name, opts: g.opts, place: g.place })),
  async exec(job, rep) { const g = groups(job.tier)[job.i]; await explore(g.sn(), job.opts, inp(job.tier === 'thorough'), rep, job, { batch: g.batch, place: g.place }); },
  done: () => stop(),
};
