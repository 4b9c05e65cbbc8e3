'use strict';
// C09 at the runtime library: every sequence of storage and transient storage accesses, in the word forms the
// compiler uses, against two maps; the host must see exactly the writes, in order.
const { KINDS } = require('../lib/std');
const H = require('../lib/hist');
const KEYS = ['zero', 'one', 'b64', 'top', 'max', 'inc', 'rev'];
const all = []; for (const k of ['zero', 'one', 'two', 'b8', 'b64', 'top', 'max', 'inc', 'kec', 'kec1', 'rev']) { for (const f of ['u256', 'le', 'b32']) all.push(['ss', f, k, 'v'], ['sl', f, k]); for (const f of ['u256', 'b32']) all.push(['ts', f, k, 'v'], ['tl', f, k]); }
const mid = []; for (const k of ['one', 'rev', 'max']) { for (const f of ['u256', 'le', 'b32']) mid.push(['ss', f, k, 'v'], ['sl', f, k]); for (const f of ['u256', 'b32']) mid.push(['ts', f, k, 'v'], ['tl', f, k]); }
mid.push(['ss', 'u256', 'one', 'z'], ['ss', 'b32', 'one', 'z'], ['ss', 'u256', 'one', 'same'], ['ts', 'b32', 'one', 'z'], ['ms', 5], ['ml', 0], ['si', 'A', 'v']);
module.exports = require('../lib/effects').join('C09', {
  technique: 'exhaustive exploration of storage access sequences on the real runtime library, lockstep with two word maps and the host write log',
  needs: ['std'],
  bounds: t => `all sequences of 2 accesses over ${all.length} (11 keys, 3 storage forms, 2 transient forms) and of up to ${t === 'thorough' ? '4 over a third of them and 3' : 3} over ${mid.length}; four library variants`,
  assumptions: [],
  jobs: t => H.jobs([
    { name: 'pairs', ops: all, depth: 2, kinds: KINDS },
    { name: 'mid', ops: mid, depth: 3, kinds: t === 'thorough' ? KINDS : ['debug-small', 'release-large'] },
    ...(t === 'thorough' ? [{ name: 'triples', ops: all, depth: 3, kinds: ['release-small'] }, { name: 'four', ops: mid.filter((_, i) => i < 20 || i > 29), depth: 4, kinds: ['debug-large', 'release-small'] }] : []),
  ], KINDS),
  exec: H.exec,
});
