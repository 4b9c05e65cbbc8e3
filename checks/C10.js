'use strict';
// C10: every sequence of setimmutable, loadimmutable and ordinary storage accesses on the runtime library; every set of
// immutables of compiled contracts, deployed and called on one storage.
const { KINDS } = require('../lib/std');
const H = require('../lib/hist');
const E = require('../lib/effects'), A = require('../lib/arith');
const C = require('../lib/contract');
const { World, runWasm } = require('../lib/host');
const { parse, Ref } = require('../lib/yulref');
const W = require('../lib/words');
const { hex, toBE } = require('../lib/u256');
const ops = []; for (const n of ['A', 'B', 'AA', 'n1', 'n12', 'long', 'long2']) ops.push(['si', n, 'v'], ['li', n]);
ops.push(['si', 'A', 'z'], ['si', 'B', 'max'], ['ss', 'u256', 'zero', 'v'], ['sl', 'u256', 'zero'], ['ss', 'b32', 'one', 'v'], ['sl', 'b32', 'one'], ['ss', 'le', 'max', 'v'], ['ts', 'b32', 'one', 'v'], ['ms', 0], ['ml', 0]);
const few = [['si', 'A', 'v'], ['li', 'A'], ['si', 'A', 'z'], ['si', 'AA', 'v'], ['li', 'AA'], ['si', 'n1', 'v'], ['li', 'n1'], ['ss', 'u256', 'zero', 'v'], ['sl', 'u256', 'zero']];
// ---- compiled contracts -----------------------------------------------------------------------------------------------------
const P = 'x'.repeat(22);
// names that differ in one character, in length, by a common prefix of up to 300 characters, or are words of the language
const NAMES = ['1', '2', '12', '21', 'a', 'A', 'b', 'a b', 'let', 'immutable', 'immutable_1', '_', P, P + 'y', P + 'z', P + 'yz', P + 'zy', 'x'.repeat(23) + 'y', 'y'.repeat(64), 'y'.repeat(63) + 'z', 'y'.repeat(300), 'y'.repeat(299) + 'z', '/* a */', '\\x41q', 'T.a', 'T_deployed', '0x1', '999999'];
// how the value set reaches the instruction; v = the text of a word expression
const SET = {
  plain: (n, v) => `setimmutable(0, "${n}", ${v})`, variable: (n, v, i) => `let s${i} := ${v} setimmutable(128, "${n}", s${i})`, inner: (n, v, i) => `{ let q := ${v} if iszero(0) { setimmutable(0, "${n}", q) } }`,
  loop: (n, v) => `for { let q := 0 } lt(q, 3) { q := add(q, 1) } { if eq(q, 2) { setimmutable(q, "${n}", ${v}) } }`, call: (n, v, i) => [`set${i}(${v})`, `function set${i}(x) { setimmutable(0, "${n}", x) }`], sum: (n, v) => `setimmutable(mload(64), "${n}", sub(add(${v}, 5), 5))`,
};
const VALUES = { number: v => '0x' + v.toString(16), decimal: v => v.toString(), storage: (v, i) => `sload(${1000 + i})`, hash: (v, i) => `xor(keccak256(0, 32), xor(keccak256(0, 32), 0x${v.toString(16)}))` };
const SINKS = Object.entries(A.SINKS).filter(([, f]) => f);
const words = [0n, 1n, 255n, W.INC, 1n << 32n, 1n << 64n, (1n << 160n) - 1n, 1n << 255n, W.M];
const mixed = i => words[(i * 7 + 3) % words.length] ^ BigInt(i % 3 ? 0 : i);
// deploy: caller-chosen subset (bit i of basefee) of the names, each with its own word
function program(names, how, val, order) {
  const funs = [], sets = order.map(i => { let t = SET[how](names[i], VALUES[val](mixed(i), i), i); if (Array.isArray(t)) { funs.push(t[1]); t = t[0]; } return `if and(basefee(), ${1n << BigInt(i)}) { ${t} }`; });
  const cases = [], fns = []; let k = 0;
  const add = code => { cases.push(`case ${k} { c${k}() }`); fns.push(`function c${k}() { ${code} }`); k++; return code; };
  const bodies = [];
  names.forEach(n => { for (const [s, f] of SINKS) bodies.push([`"${n}" to ${s}`, add(f(`loadimmutable("${n}")`))]); });
  names.forEach((n, i) => { const m = names[(i + 1) % names.length]; bodies.push([`"${n}" and "${m}" around storage`, add(`let a := loadimmutable("${n}") sstore(0, a) sstore(a, 7) tstore(a, 8) let b := loadimmutable("${m}") mstore(128, loadimmutable("${n}")) mstore(160, b) log3(128, 64, a, b, eq(a, b)) log2(0, 0, sload(0), sload(b))`)]); });
  bodies.push(['all in turn', add(names.map(n => `log1(0, 0, loadimmutable("${n}"))`).join(' ') + ' sstore(1, 2) ' + names.map(n => `log1(0, 0, add(loadimmutable("${n}"), sload(1)))`).reverse().join(' '))]);
  const src = `object "T" { code { ${order.some(() => /let s/.test(sets.join(''))) ? '' : ''}mstore(64, 128) sstore(3, caller()) ${sets.join(' ')} sstore(4, 9) let n := datasize("T_deployed") datacopy(0, dataoffset("T_deployed"), n) return(0, 5) ${funs.join(' ')} } object "T_deployed" { code { switch calldataload(0) ${cases.join(' ')} default { invalid() } ${A.IDF || 'function idf(x) -> r { r := x }'} ${fns.join(' ')} } } }`;
  return { src, bodies, idf: 'function idf(x) -> r { r := x }' };
}
const show = (r, w) => `${r.kind} ${r.data} {${w.trace.join(' | ')}}`;
async function contract(job, rep) {
  const names = job.names, order = job.order, p = program(names, job.how, job.val, order);
  const r = await C.compiler().compile(p.src, job.opts);
  const key = `immutables ${names.map(n => (n.length > 30 ? n.slice(0, 3) + '..' + n.length + n.slice(-1) : n)).join(',')} ${job.how} ${job.val} order ${order.join('')}${job.opts ? ' [' + job.opts + ']' : ''}`;
  rep.state(); rep.trace();
  if (!r.ok) { rep.viol(key + ' compile', `does not compile (${r.err}): ${String(r.msg).slice(0, 300)}`, job); return; }
  const mod = new WebAssembly.Module(r.ok), asts = p.bodies.map(([, c]) => parse(p.idf + '\n' + c));
  const n = names.length, subsets = n <= 4 ? [...Array(1 << n).keys()] : [0, (1 << n) - 1, ...names.map((_, i) => 1 << i), ...names.map((_, i) => ((1 << n) - 1) ^ (1 << i))];
  for (const sub of subsets) {
    const store = new Map(); for (let i = 0; i < n; i++) store.set(1000n + BigInt(i), mixed(i));
    const w = new World({ basefee: BigInt(sub), storage: store }), d = runWasm(mod, 'deploy', w);
    rep.state(); rep.step(); rep.trace();
    const at = `set ${names.filter((_, i) => sub >> i & 1).map(x => x.slice(0, 20)).join(',') || 'nothing'}`;
    if (d.kind !== 'return' || w.sload(3n) === 0n || w.sload(4n) !== 9n) { rep.viol(key + ' deploy', `${at}: the constructor ended with ${d.kind} ${d.data} ${d.why || ''}`, job); continue; }
    for (let i = 0; i < n; i++) if (w.sload(1000n + BigInt(i)) !== mixed(i)) rep.viol(key + ' storage', `${at}: storage word ${1000 + i} changed`, job);
    const imm = new Map(names.flatMap((x, i) => (sub >> i & 1 ? [[unesc(x), mixed(i)]] : [])));
    p.bodies.forEach(([what], k) => {
      const cd = new Uint8Array(32); cd.set(toBE(BigInt(k)));
      const w1 = new World({ calldata: cd, storage: w.storage }), w2 = new World({ calldata: cd, storage: w.storage });
      rep.state(); rep.step(); rep.trace();
      const got = show(C.norm(runWasm(mod, 'call', w1)), w1);
      const ref = new Ref(w2, { immutables: imm }), want = show(C.norm(ref.run(asts[k])), w2);
      if (got !== want) { rep.cls('differs'); rep.viol(`${key}: ${what}`, `${at}: expected ${want}, got ${got}`, job); } else rep.cls('agrees');
    });
  }
}
const unesc = t => t.replace(/\\x([0-9a-fA-F]{2})/g, (_, c) => String.fromCharCode(parseInt(c, 16)));
function contracts(tier) {
  const r = [], O = ['', ...E.OPTS[tier]], up = l => l.map((_, i) => i), down = l => up(l).reverse();
  const groups = []; for (let i = 0; i < NAMES.length; i += 4) groups.push(NAMES.slice(i, i + 4));
  for (const opts of O) for (const g of groups) r.push({ names: g, how: 'plain', val: 'number', order: up(g), opts });
  for (const opts of O) r.push({ names: NAMES, how: 'plain', val: 'decimal', order: down(NAMES), opts });
  for (const opts of O) for (const how of Object.keys(SET)) for (const val of Object.keys(VALUES)) r.push({ names: ['7', '12', P + 'a', P + 'b'], how, val, order: [2, 0, 3, 1], opts });
  return r;
}
module.exports = E.join('C10', {
  technique: 'exhaustive exploration of immutable and storage access sequences on the real runtime library, lockstep with a name-to-value map',
  needs: ['std'],
  bounds: t => `all sequences of up to ${t === 'thorough' ? 4 : 3} operations over ${ops.length} (7 names, zero and maximal values, storage, transient and memory accesses), of up to ${t === 'thorough' ? 6 : 5} over ${few.length}; library variants`,
  assumptions: ['setting one name twice has no defined result (Yul allows one setimmutable per name and copy)'],
  jobs: t => H.jobs([
    { name: 'immutables', ops, depth: 3, kinds: KINDS },
    ...(t === 'thorough' ? [{ name: 'immutables4', ops, depth: 4, kinds: ['release-small', 'debug-large'] }] : []),
    { name: 'few', ops: few, depth: t === 'thorough' ? 6 : 4, kinds: ['debug-small', 'release-small'] },
  ], KINDS),
  exec: H.exec,
}, {
  jobs: contracts, exec: contract,
  bounds: t => `${contracts(t).length} contracts: ${NAMES.length} names in groups of 4 (all subsets set) and all together, ${Object.keys(SET).length} ways to set x ${Object.keys(VALUES).length} value forms, each name loaded to ${SINKS.length} places and between storage accesses`,
});
