'use strict';
// C14 at the runtime library: every environment query over boundary host values; result, and nothing else changed.
const { KINDS } = require('../lib/std');
const { Frame } = require('../lib/frame');
const { World } = require('../lib/host');
const keccak = require('../lib/keccak');
const W = require('../lib/words');
const { toBE, fromBE, hex, H } = require('../lib/u256');
const words = t => (t === 'thorough' ? W.uniq([...W.wide, ...W.bitwise, ...W.bytewise(W.INC, [0, 0x80, 0xff]), ...W.bytewise(0n, [1, 0x7f, 0x80, 0xff])]) : W.uniq([...W.wide, ...W.bytewise(W.INC, [0, 0x80])]));
const u64s = W.uniq([0n, 1n, 2n, 255n, 256n, ...[7, 8, 15, 16, 31, 32, 33, 47, 48, 62, 63].flatMap(b => [(1n << BigInt(b)) - 1n, 1n << BigInt(b), (1n << BigInt(b)) + 1n]), (1n << 64n) - 1n, 0x0102030405060708n, 0xfffefdfcfbfaf9f8n]);
const addrs = t => W.uniq([...words(t), ...W.bytewise(0n, [1, 0xff])].map(x => x & ((1n << 160n) - 1n)));
const LE = v => hex(fromBE(toBE(v).reverse()));
const ADDR = { wrapper_caller: 'caller', wrapper_current_contract: 'address', wrapper_origin: 'origin', wrapper_block_coin_base: 'coinbase' };
const WORD = { wrapper_callvalue: 'callvalue', wrapper_current_chainid: 'chainid', wrapper_current_base_fee: 'basefee', wrapper_current_blob_base_fee: 'blobbasefee', wrapper_gas_price: 'gasprice' };
const U64 = { wrapper_gas: 'gasleft', wrapper_time_stamp: 'timestamp', wrapper_block_number: 'number', wrapper_gas_limit: 'gaslimit' };
// ---- environment queries in compiled contracts --------------------------------------------------------------------------------
const A = require('../lib/arith'), CL = require('../lib/clayer'), E = require('../lib/effects');
const QUERIES = { address: 'a', caller: 'a', origin: 'a', coinbase: 'a', callvalue: 'w', gasprice: 'w', chainid: 'w', basefee: 'w', blobbasefee: 'w', selfbalance: 'w', prevrandao: 'h', gas: 'u', timestamp: 'u', number: 'u', gaslimit: 'u', calldatasize: 's', returndatasize: 's', codesize: 's', msize: 'm' };
const FIELD = { gas: 'gasleft', selfbalance: 'selfbal' };
const QS = Object.keys(QUERIES);
// the values a query can return: few for pairs, all boundary ones alone
function values(q, few) {
  const k = QUERIES[q];
  if (k === 's' || k === 'm') return [{}];
  const vs = few ? [0n, 1n, 0xdeadbeef80n, (1n << 64n) - 1n] : k === 'u' ? u64s : k === 'a' ? addrs('quick') : words('quick');
  return vs.map(v => ({ [FIELD[q] || q]: k === 'a' ? toBE(v, 20) : k === 'h' ? toBE(v) : v }));
}
const SIZED = { calldatasize: '', returndatasize: 'pop(call(9, 0x77, 0, 0, 0, 0, 0))', codesize: '', msize: 'mstore(70000, 1)' };
const pre = q => SIZED[q] || '';
const big = { calls: Array.from({ length: 4 }, () => ({ status: 0, data: new Uint8Array(300).fill(7) })), code: new Uint8Array(777).fill(9) };
function snippets(fam) {
  const r = [];
  if (fam === 'sinks') for (const q of QS) for (const [k, f] of Object.entries(A.SINKS)) if (f && !(k === 'mem' && q === 'msize')) r.push({ key: `${q}() to ${k}`, code: `${pre(q)} ${f(q + '()')}`, inputs: values(q).map(o => ({ o: { ...big, ...o }, words: [] })) });
  if (fam === 'operators') for (const q of QS) for (const [op, n] of Object.entries(A.ARITY)) {
    const c = 'calldataload(32)', l = '0x' + 'f'.repeat(40), forms = n === 1 ? [`${op}(${q}())`] : n === 2 ? [`${op}(${q}(), ${c})`, `${op}(${c}, ${q}())`, `${op}(${q}(), ${l})`, `${op}(${l}, ${q}())`, `${op}(${q}(), ${q}())`] : [`${op}(${q}(), ${c}, 7)`, `${op}(${c}, ${q}(), 7)`, `${op}(7, ${c}, ${q}())`];
    forms.forEach(e => r.push({ key: e, code: `${pre(q)} log1(0, 0, ${e})`, inputs: values(q, true).flatMap(o => [0n, 3n, (1n << 160n) - 2n, W.M].map(w => ({ o: { ...big, ...o }, words: [w] }))) }));
  }
  if (fam === 'pairs') for (const a of QS) for (const b of QS) r.push({ key: `${a}() with ${b}()`, code: `${pre(a)} ${pre(b)} let x := ${a}() let y := ${b}() log3(0, 0, x, y, eq(x, y)) log3(0, 0, ${a}(), ${b}(), eq(${a}(), ${b}())) if lt(${a}(), ${b}()) { log0(0, 1) } sstore(x, ${b}()) x := ${b}() y := x log2(0, 0, x, y)`, inputs: values(a, true).flatMap(o => values(b, true).map(p => ({ o: { ...big, ...o, ...p }, words: [] }))) });
  return r.map(s => ({ ...s, funs: ['function idf(x) -> r { r := x }'] }));
}
const EXTRA = {
  jobs: t => ['sinks', 'operators', 'pairs'].flatMap(fam => ['', ...E.OPTS[t]].flatMap(opts => [0, 1].map(at => ({ fam, opts, at })))),
  exec: (job, rep) => CL.explore(snippets(job.fam).filter((_, i) => i % 2 === job.at), job.opts, null, rep, job),
  bounds: () => `${QS.length} queries in every place a value can be used, as operands of ${Object.keys(A.ARITY).length} operators, in all ordered pairs`,
};
module.exports = require('../lib/effects').join('C14', {
  technique: 'exhaustive enumeration of host values for every environment query of the real runtime library, with a whole-memory frame check',
  needs: ['std'],
  bounds: t => `${words(t).length} words, ${addrs(t).length} addresses, ${u64s.length} 64-bit values for every query that can return them; block numbers of all ages 0..260 for blockhash; all ordered pairs of queries`,
  assumptions: ['the host gives block number, time, gas and gas limit as 64-bit values'],
  jobs: t => KINDS.flatMap(kind => ['addr', 'word', 'u64', 'ext', 'hash', 'pairs'].map(g => ({ kind, g, tier: t }))),
  exec(job, rep) {
    const w = new World(), f = new Frame(job.kind, w, rep, job), R = f.m.slot(), A = f.m.slot(), t = job.tier;
    const word = a => toBE(a);
    const set = (p, v) => { w[p] = v; };
    if (job.g === 'addr') for (const [fn, p] of Object.entries(ADDR)) for (const a of addrs(t)) { set(p, toBE(a, 20)); f.garbage(R); f.run(fn, [R], R, 32, hex(a), `${p} ${hex(a, 40)}`, a === 3n); }
    if (job.g === 'word') for (const v of words(t)) {
      for (const [fn, p] of Object.entries(WORD)) { set(p, v); f.garbage(R); f.run(fn, [R], R, 32, LE(v), `${p} ${hex(v)}`, v === 3n); }
      set('prevrandao', toBE(v)); f.garbage(R); f.run('wrapper_block_prevRandao', [R], R, 32, hex(v), 'prevrandao ' + hex(v));
      set('callvalue', v); f.run('wrapper_callvalue_not_zero', [], R, 0, v ? '1' : '0', 'callvalue ' + hex(v));
      w.selfbal = v; f.garbage(R); f.run('wrapper_self_balance', [R], R, 32, LE(v), 'selfbalance ' + hex(v));
    }
    if (job.g === 'u64') for (const [fn, p] of Object.entries(U64)) for (const v of u64s) { set(p, v); f.run(fn, [], R, 0, String(BigInt.asIntN(64, v)), `${p} ${v}`, v === 256n); }
    if (job.g === 'ext') {
      const vs = words(t), as = addrs(t);
      for (const [i, a] of as.entries()) for (const hi of [0n, (1n << 96n) - 1n, 1n]) { // the upper 12 bytes of an address word do not count
        const v = vs[i % vs.length]; f.poke(A, toBE(a | hi << 160n));
        const code = new Uint8Array(i * 7 % 300).fill(i); w.ext = new Map([[H(toBE(a, 20)), { balance: v, code }]]);
        f.garbage(R); f.run('wrapper_query_balance', [A, R], R, 32, LE(v), `balance ${hex(a | hi << 160n)} ${hex(v)}`);
        f.run('wrapper_extcode_size', [A], R, 0, String(code.length), `extcodesize ${hex(a | hi << 160n)} ${code.length}`);
        f.garbage(R); f.run('wrapper_extcode_hash', [A, R], R, 32, H(keccak(code)), `extcodehash ${hex(a | hi << 160n)} ${code.length}`);
        w.ext = new Map(); f.garbage(R); f.run('wrapper_extcode_hash', [A, R], R, 32, hex(0n), `extcodehash of nothing ${hex(a)}`); f.run('wrapper_extcode_size', [A], R, 0, '0', `extcodesize of nothing ${hex(a)}`);
      }
      for (const v of vs) { w.ext = new Map([[H(toBE(5n, 20)), { balance: v, hash: toBE(v) }]]); f.poke(A, toBE(5n)); f.garbage(R); f.run('wrapper_query_balance', [A, R], R, 32, LE(v), `balance 5 ${hex(v)}`); f.garbage(R); f.run('wrapper_extcode_hash', [A, R], R, 32, hex(v), `extcodehash 5 ${hex(v)}`); }
    }
    if (job.g === 'hash') for (const now of [0n, 1n, 255n, 256n, 257n, 300n, 1n << 32n, (1n << 63n) + 5n, (1n << 64n) - 1n]) { w.number = now;
      for (const q of W.uniq([...Array.from({ length: 261 }, (_, i) => now - BigInt(i)), now + 1n, ...u64s].filter(x => x >= 0n && x < 1n << 64n))) { f.garbage(R); f.run('wrapper_block_hash', [BigInt.asIntN(64, q), R], R, 32, H(w.blockhash(q)), `blockhash(${q}) at ${now}`); } }
    if (job.g === 'pairs') { // any order and repetition: no query disturbs another's value
      const all = [...Object.entries(ADDR).map(([fn, p]) => [fn, R, 32, () => '00'.repeat(12) + H(w[p])]), ...Object.entries(WORD).map(([fn, p]) => [fn, R, 32, () => LE(w[p])]), ...Object.entries(U64).map(([fn, p]) => [fn, 0, 0, () => String(BigInt.asIntN(64, w[p]))]), ['wrapper_block_prevRandao', R, 32, () => H(w.prevrandao)], ['wrapper_self_balance', R, 32, () => LE(w.balance(w.address))]];
      let k = 0;
      for (const a of all) for (const b of all) for (const c of t === 'thorough' ? all : [a]) for (const q of [a, b, c]) {
        k++; const v = fromBE(keccak(toBE(BigInt(k)))); // a fresh environment before each query
        for (const p of Object.values(ADDR)) w[p] = toBE(v >> 90n & ((1n << 160n) - 1n), 20); for (const p of Object.values(WORD)) w[p] = v; for (const p of Object.values(U64)) w[p] = v & ((1n << 64n) - 1n); w.selfbal = v; w.prevrandao = toBE(v);
        f.garbage(R); f.run(q[0], q[1] ? [R] : [], R, q[2], q[3](), `${a[0]};${b[0]};${c[0]} environment ${k}`);
      }
    }
    if (w.trace.length) rep.viol('environment query writes to the host', w.trace[0]);
  },
}, EXTRA);
