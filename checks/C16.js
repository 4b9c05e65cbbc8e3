'use strict';
// C16 at the runtime library: the transfer shortcut against the Yul function fun_transfer it replaces.
const { KINDS, Std } = require('../lib/std');
const { World } = require('../lib/host');
const keccak = require('../lib/keccak');
const W = require('../lib/words');
const { toBE, fromBE, hex, M } = require('../lib/u256');
const F = 'wrapper_optimized_erc20_fun_transfer';
const A160 = (1n << 160n) - 1n;
const slotOf = a => { const b = new Uint8Array(64); b.set(toBE(a)); return fromBE(keccak(b)); };
const TOPIC = 0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3efn;
// the Yul function, statement by statement
function reference(w, from, to, v) {
  const out = (...p) => ({ revert: p.map(x => (typeof x === 'string' ? x : hex(x))).join('') });
  const _1 = from & A160, _3 = to & A160;
  if (_1 === 0n) return out('96c6fd1e', 0n);
  if (_3 === 0n) return out('ec442f05', 0n);
  const _5 = w.sload(slotOf(_1));
  if (_5 < v) return out('e450d38c', _1, _5, v);
  w.sstore(slotOf(_1), (_5 - v) & M);
  const d = slotOf(_3); w.sstore(d, (w.sload(d) + v) & M);
  w.log(toBE(v), [TOPIC, _1, _3]);
  return {};
}
const addrs = t => W.uniq([0n, 1n, 2n, 1n << 159n, A160, W.INC & A160, 1n << 160n, 1n << 255n, W.INC, M, (1n << 160n) | 1n, ...(t === 'thorough' ? W.bytewise(0n, [1, 0xff]) : W.bytewise(0n, [0x80]).filter((_, i) => i % 3 === 0 || i > 17))]);
const amounts = W.core;
const T = require('../lib/transfer');
const OPTS = { quick: ['allopt,le'], thorough: ['allopt,le', 'allopt', 'le', 'allopt,le,O0'] };
module.exports = require('../lib/effects').join('C16', {
  technique: 'exhaustive product of addresses, amounts and balances, and all transfer sequences up to a depth, on the real runtime library in lockstep with the Yul function it replaces',
  needs: ['std'],
  bounds: t => `sender x recipient over ${addrs(t).length} address words with 6 balance / amount pairs, and amount x sender balance x recipient balance over 23 words for 4 address pairs (one of them a self-transfer); sequences of up to ${t === 'thorough' ? 4 : 3} transfers among 3 accounts`,
  assumptions: ['storage reached through the little-endian host functions (the shortcut is only used in that mode)'],
  jobs: t => KINDS.flatMap(kind => ['addr', 'amount', 'seq'].map(g => ({ kind, g, tier: t }))),
  exec(job, rep) {
    const show = w => w.trace.join(' | ') + ' :: ' + w.storageView().join(',');
    let m = new Std(job.kind, new World());
    if (!m.has(F)) { rep.state(); rep.trace(); rep.cls('absent'); return; }
    let P = [m.slot(), m.slot(), m.slot()];
    const step = (impl, model, from, to, v, key, job2) => { // one transfer on both; false at a difference or halt
      rep.state(); rep.step(); rep.trace();
      m.w = impl; m.put(P[0], toBE(from)); m.put(P[1], toBE(to)); m.put(P[2], toBE(v));
      const r = m.call(F, ...P), want = reference(model, from, to, v);
      const a = r.halt ? `${r.halt} ${r.data}` : r.trap ? 'trap ' + r.trap : 'ok', b = want.revert ? 'revert ' + want.revert : 'ok';
      rep.cls(b.slice(0, 15));
      const after = P.map(p => fromBE(m.get(p)));
      if (!('v' in r)) { m = new Std(job.kind, impl); m.slot(); m.slot(); m.slot(); } // the transaction ended
      if (a !== b || show(impl) !== show(model)) { rep.viol(key, `${job.kind}: expected ${b} ${show(model)}, got ${a} ${show(impl)}`, { ...job, ...job2 }); return false; }
      if (after.some((x, i) => x !== [from, to, v][i])) { rep.viol(key + ' arguments', `${job.kind}: an argument word changed`, { ...job, ...job2 }); return false; }
      return b === 'ok';
    };
    const worlds = st => [new World({ storage: new Map(st) }), new World({ storage: new Map(st) })];
    if (job.g === 'addr') for (const a of addrs(job.tier)) for (const b of addrs(job.tier)) for (const [v, x, y] of [[5n, 9n, 3n], [10n, 9n, 3n], [0n, 0n, 0n], [9n, 9n, M], [M, M, M], [1n << 64n, (1n << 64n) + 1n, 1n]]) {
      const st = [[slotOf(b & A160), y], [slotOf(a & A160), x], [slotOf(a), 77n], [slotOf(b), 78n]].slice(0, a > A160 || b > A160 ? 4 : 2);
      const s = st.filter(([k], i) => i < 2 || (k !== slotOf(a & A160) && k !== slotOf(b & A160)));
      step(...worlds(s), a, b, v, `transfer(${hex(a)},${hex(b)},${v}) balances ${x},${y}`);
    }
    if (job.g === 'amount') for (const [a, b] of [[1n, 2n], [W.INC, A160], [A160, W.DEC], [7n, 7n]]) for (const v of amounts) for (const x of amounts) for (const y of job.tier === 'thorough' || a !== b ? amounts : [0n])
      if (step(...worlds([[slotOf(b & A160), y], [slotOf(a & A160), x]]), a, b, v, `transfer(${hex(a)},${hex(b)},${hex(v)}) balances ${hex(x)},${hex(y)}`)) rep.sample(`transfer ${hex(v)} with balances ${hex(x)}, ${hex(y)} agrees`);
    if (job.g === 'seq') { // histories on one instance and one storage
      const acc = [1n, W.INC & A160, A160], T = []; for (const a of acc) for (const b of acc) for (const v of [0n, 3n, 10n, M]) T.push([a, b, v]);
      const depth = job.tier === 'thorough' ? 4 : 3, init = [[slotOf(acc[0]), 10n], [slotOf(acc[1]), M - 2n]];
      const go = (st, hist) => { for (const tr of T) {
        const [i, o] = worlds(st); m = new Std(job.kind, i); P = [m.slot(), m.slot(), m.slot()];
        const h = [...hist, tr]; if (step(i, o, ...tr, `sequence ${h.map(x => x.map(y => y.toString(16)).join('>')).join(' ')}`) && h.length < depth) go([...i.storage], h);
      } };
      go(init, []);
    }
  },
}, {
  jobs: t => OPTS[t].flatMap(opts => T.programs(t).map((p, i) => i).filter(i => t === 'quick' || opts === 'allopt,le' || i % 4 === 0).map(i => ({ i, opts }))).concat(t === 'quick' ? T.programs(t).map((p, i) => i).filter(i => i % 20 === 0).flatMap(i => ['allopt', 'le'].map(opts => ({ i, opts }))) : []),
  exec: (job, rep) => T.explore(T.programs(job.tier)[job.i], job.opts, rep, job),
  bounds: t => `${T.programs(t).length} contracts with a transfer function: its standard forms, names, uses, and every function that differs in one literal, name, builtin or statement, each on 30 transfers`,
});
