'use strict';
// Builtins on the results of builtins: every pair of word builtins, the inner one as each operand of the outer one, with
// equal and different operands and literals between them; every unary builtin and condition on top of them. This is what
// a rewriting of nested builtins (a peephole) can see. Used by C04 and C05, by the outer builtin.
const A = require('./arith');
const { P } = require('./words');
const OPS = Object.keys(A.ARITY), TWO = OPS.filter(o => A.ARITY[o] === 2), ONE = OPS.filter(o => A.ARITY[o] === 1), THREE = OPS.filter(o => A.ARITY[o] === 3);
const SHIFT = ['shl', 'shr', 'sar', 'byte', 'signextend'];
const MASK = '0xffffffffffffffffffffffffffffffffffffffff';
const pre = 'let x := calldataload(32) let y := calldataload(64) ';
const mem = e => `mstore(0, ${e}) return(0, 32)`, cond = e => `if ${e} { mstore8(0, 1) return(0, 1) } mstore8(0, 2) return(0, 1)`;
// literals for the first operand (an amount where it is one) and for any other
const L1 = (op, T) => (SHIFT.includes(op) ? (T ? ['8', '31', '96', '160', '255', '256', '0x100000000'] : ['8', '160', '256']) : T ? ['0', '1', '2', '32', MASK, 'not(0)', '0x100000000'] : ['1', '32']);
const L2 = (op, T) => (T ? ['0', '1', '2', '32', '0xff', MASK, 'not(0)', '0x100000000'] : ['1', MASK]);
function inner(op, T) {
  if (A.ARITY[op] === 1) return [`${op}(x)`];
  if (A.ARITY[op] === 3) return [`${op}(x, y, 32)`, `${op}(x, x, y)`];
  return [`${op}(x, y)`, `${op}(x, x)`, ...L1(op, T).map(l => `${op}(${l}, x)`), ...L2(op, T).map(l => `${op}(x, ${l})`)];
}
const HEAVY = ['div', 'sdiv', 'mod', 'smod', 'addmod', 'mulmod'];
function* exprs(out, T) {
  // in the quick tier the division family, which compiles to long code, is paired with every second form of the other builtin
  for (const [k, op] of OPS.entries()) for (const i of inner(op, T).filter((_, j) => T || !HEAVY.includes(out) || j === 0 || (j + k) % 2 === 0)) {
    const n = A.ARITY[out];
    if (n === 1) { yield `${out}(${i})`; continue; }
    if (n === 3) { yield `${out}(${i}, x, y)`; yield `${out}(x, ${i}, y)`; yield `${out}(y, x, ${i})`; yield `${out}(${i}, ${i}, 7)`; continue; }
    // the other operand: a variable of the inner expression, the inner expression again, its literal, the usual ones
    const own = /\((\w+(?:\(0\))?), x\)$|\(x, (\w+(?:\(0\))?)\)$/.exec(i), lits = new Set(own ? [own[1] || own[2]].filter(l => !/^[xy]$/.test(l)) : []);
    const first = new Set([...lits, ...L1(out, T).slice(0, T ? 9 : 1)]), second = new Set([...lits, ...L2(out, T).slice(0, T ? 9 : 1)]);
    for (const o of [...(own && lits.size && !T ? ['x'] : ['x', 'y']), ...first]) yield `${out}(${o}, ${i})`;
    for (const o of [...(own && lits.size && !T ? ['x'] : ['x', 'y']), ...second]) yield `${out}(${i}, ${o})`;
    if (T || !lits.size) yield `${out}(${i}, ${i})`;
  }
}
// snippets with `out` outermost; depth 3 by unary builtins and by a condition
function* snippets(out, T) {
  let k = 0;
  const sn = (e, f) => ({ key: `${e}${f === cond ? ' as condition' : ''}`, code: pre + f(e), funs: [] });
  for (const e of exprs(out, T)) {
    k++;
    yield sn(e, mem);
    if (T || k % 8 === 0) yield sn(e, cond);
    if (T || k % 8 === 1) yield sn(`iszero(${e})`, k % 16 === 1 ? cond : mem);
    if (T) yield sn(`not(${e})`, mem);
  }
}
const WORDS = [0n, 1n, 0x60n, (1n << 256n) - 1n, P(255) + (7n << 160n) + 0x1234567890abcdefn];
const INPUTS = T => (T ? [...WORDS, 32n, P(32), P(128) - 1n] : WORDS).flatMap((a, _, all) => all.map(b => ({ words: [a, b] })));
function jobs(ops, tier) {
  const r = [];
  for (const out of ops) { const of = tier === 'thorough' ? 6 : 2; for (let at = 0; at < of; at++) r.push({ compose: out, opts: '', tier, at, of }); }
  if (tier === 'thorough') for (const opts of ['O0', 'bytes32', 'disopt']) for (const out of ops) r.push({ compose: out, opts, tier: 'quick', at: 0, of: 1 });
  return r;
}
async function exec(job, rep) {
  const T = job.tier === 'thorough', all = [...snippets(job.compose, T)].filter((_, i) => i % job.of === job.at), seen = new Set();
  const sn = all.filter(s => !seen.has(s.key) && seen.add(s.key));
  const ins = INPUTS(T);
  await require('./clayer').explore(sn, job.opts, () => ins, rep, job, { batch: 150 });
}
const bounds = T => `every word builtin on the result of every other (each operand, ${T ? 17 : 8} choices of the others, and ${T ? 'a third' : 'for every eighth a third'} level of iszero, not or a condition) over ${INPUTS(T).length} pairs of words`;
module.exports = { jobs, exec, bounds, snippets };
