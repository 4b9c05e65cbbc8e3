'use strict';
// Builtins on words in compiled contracts: every builtin x operand forms x use of the result x words, against the
// reference interpreter. Used by C04 (arithmetic) and C05 (comparison, bitwise, shift).
const { compileAll, runBoth, stop } = require('./contract');
const W = require('./words');
const { M, toBE, hex } = require('./u256');
const ARITY = { add: 2, sub: 2, mul: 2, div: 2, sdiv: 2, mod: 2, smod: 2, exp: 2, signextend: 2, addmod: 3, mulmod: 3, lt: 2, gt: 2, slt: 2, sgt: 2, eq: 2, iszero: 1, not: 1, and: 2, or: 2, xor: 2, byte: 2, shl: 2, shr: 2, sar: 2 };
// how operand i reaches the builtin: p = statements before, e = expression. Word i of the call data is at 32 + 32 * i.
const cd = i => `calldataload(${32 + 32 * i})`;
const FORMS = {
  C: i => ({ e: cd(i) }),                                                            // call data
  V: i => ({ p: `let v${i} := ${cd(i)}`, e: `v${i}` }),                              // variable
  Z: i => ({ p: `let v${i} v${i} := ${cd(i)}`, e: `v${i}` }),                        // declared without value
  N: i => ({ p: `let v${i} := 0 v${i} := ${cd(i)}`, e: `v${i}` }),                   // declared with a small value
  K: i => ({ p: `let w${i} := ${cd(i)} let v${i} := w${i}`, e: `v${i}` }),           // copied variable
  S: i => ({ p: `sstore(${i + 1}, ${cd(i)})`, e: `sload(${i + 1})` }),               // storage
  U: i => ({ p: `sstore(${i + 1}, ${cd(i)}) let v${i} := sload(${i + 1})`, e: `v${i}` }),
  T: i => ({ p: `tstore(${i + 1}, ${cd(i)})`, e: `tload(${i + 1})` }),               // transient storage
  M: i => ({ p: `mstore(${128 + 32 * i}, ${cd(i)})`, e: `mload(${128 + 32 * i})` }), // memory
  m: i => ({ p: `mstore(${128 + 32 * i}, ${cd(i)}) let v${i} := mload(${128 + 32 * i})`, e: `v${i}` }),
  A: i => ({ e: `add(${cd(i)}, 0)` }),                                               // another builtin
  O: i => ({ e: `not(not(${cd(i)}))` }),
  a: i => ({ e: `and(${cd(i)}, not(0))` }),
  F: i => ({ e: `idf(${cd(i)})` }),                                                  // result of a function
  f: i => ({ p: `let v${i} := idf(${cd(i)})`, e: `v${i}` }),
  B: i => ({ e: `iszero(${cd(i)})` }),                                               // a truth value
  b: i => ({ p: `let v${i} := lt(${cd(i)}, 2)`, e: `v${i}` }),
  I: i => ({ e: 'calldatasize()', w: 'size' }),                                      // 32 bits in the runtime
  J: i => ({ p: `let v${i} := calldatasize()`, e: `v${i}`, w: 'size' }),
  L: i => ({ e: 'timestamp()', w: 'time' }),                                         // 64 bits in the runtime
  l: i => ({ p: `let v${i} := timestamp()`, e: `v${i}`, w: 'time' }),
  P: i => ({ e: 'prevrandao()', w: 'rand' }),                                        // a byte-array word
  p: i => ({ p: `let v${i} := prevrandao()`, e: `v${i}`, w: 'rand' }),
  D: i => ({ e: `shr(96, shl(96, ${cd(i)}))` }),
};
const IDF = 'function idf(x) -> r { r := x }';
// what happens to the result expression
const SINKS = {
  mem: e => `mstore(0, ${e}) return(0, 32)`,
  var: e => `let r := ${e} mstore(0, r) return(0, 32)`,
  asg: e => `let r r := ${e} mstore(0, r) return(0, 32)`,
  asg0: e => `let r := 0 r := ${e} mstore(0, r) return(0, 32)`,
  sto: e => `sstore(7, ${e})`,
  tst: e => `tstore(7, ${e})`,
  if: e => `if ${e} { mstore8(0, 1) return(0, 1) } mstore8(0, 2) return(0, 1)`,
  sw: e => `switch ${e} case 0 { mstore8(0, 9) } case 1 { mstore8(0, 1) } case 0x100000000 { mstore8(0, 2) } default { mstore8(0, 3) } return(0, 1)`,
  for: e => `for { let k := 0 } ${e} { k := add(k, 1) } { mstore8(0, 5) if gt(k, 2) { break } } return(0, 1)`,
  fun: e => `mstore(0, idf(${e})) return(0, 32)`,
  ret: null,
  log: e => `log1(0, 0, ${e})`,
  top: e => `mstore(0, add(${e}, 1)) return(0, 32)`,
  isz: e => `mstore(0, iszero(${e})) return(0, 32)`,
  eq: e => `mstore(0, eq(${e}, ${cd(0)})) return(0, 32)`,
  key: e => `sstore(${e}, 5)`,
  b8: e => `mstore8(3, ${e}) return(0, 32)`,
  shf: e => `mstore(0, shl(${e}, 0x1234567890abcdef)) return(0, 32)`,
};
const lit = (v, f) => (f === 'h' ? '0x' + v.toString(16) : v.toString());
// Build a snippet of builtin op with operand forms fs (letters, or {v, f} literals) and a sink.
function snippet(op, fs, sink) {
  const parts = fs.map((f, i) => (typeof f === 'string' ? FORMS[f](i) : { e: lit(f.v, f.f) }));
  const e = `${op}(${parts.map(p => p.e).join(', ')})`, pre = parts.map(p => p.p || '').filter(Boolean).join(' ');
  const name = `${op}(${fs.map(f => (typeof f === 'string' ? f : lit(f.v, f.f))).join(',')}) to ${sink}`;
  const code = sink === 'ret' ? `${pre} mstore(0, wrap(${cd(0)}, ${cd(1)}, ${cd(2)})) return(0, 32)` : `${pre} ${SINKS[sink](e)}`;
  return { key: name, code, funs: [IDF], parts };
}
// worlds for one tuple of operand words
function inputs(sn, words) {
  const o = {}; let size = 0;
  sn.parts.forEach((p, i) => { if (p.w === 'rand') o.prevrandao = toBE(words[i]); if (p.w === 'time') o.timestamp = words[i] & ((1n << 64n) - 1n); if (p.w === 'size') size = Number(words[i] % 97n); });
  return { o, words: words.concat(Array(Math.max(0, 3 - words.length)).fill(0n)), size };
}
async function explore(sn, opts, wordsOf, rep, job, place) {
  const cs = await compileAll(sn, opts, undefined, place), tag = (opts ? ' [' + opts + ']' : '') + (place ? ' in ' + place : '');
  sn.forEach((s, i) => {
    const c = cs[i];
    if (c.err) { rep.state(); rep.trace(); rep.viol(`${s.key}${tag} compile`, `does not compile (${c.err}): ${String(c.msg).slice(0, 300)}`, job && { ...job, only: s.key }); return; }
    for (const words of wordsOf(s)) {
      rep.state(); rep.step(); rep.trace();
      const inp = inputs(s, words);
      const d = runBoth(c, s, inp.words.slice(0, 3), () => inp.o);
      if (d) { rep.cls('differs'); rep.viol(`${s.key}${tag}`, `operands ${words.map(w => hex(w)).join(',')}: expected ${d.want}, got ${d.got}`, job && { ...job, only: s.key }); } else { rep.cls('agrees'); if (rep.r.samples.length < 2) rep.sample(`${s.key} on ${words.map(w => '0x' + w.toString(16)).join(', ')}`); }
    }
  });
}
const pairs = (A, B = A) => A.flatMap(a => B.map(b => [a, b]));
const triples = A => A.flatMap(a => A.flatMap(b => A.map(c => [a, b, c])));
module.exports = { ARITY, FORMS, SINKS, snippet, inputs, explore, pairs, triples, stop, lit };
