'use strict';
// C13 at the runtime library: halting, logging and hashing.
const { KINDS } = require('../lib/std');
const H = require('../lib/hist');
const seq = [['ms', 0], ['ms', 33], ['ms8', 70, 0], ['ms', 16370], ['log', 0, 0, 40], ['log', 1, 20, 1], ['log', 2, 65530, 40], ['log', 3, 3, 0], ['log', 4, 31, 64], ['kk', 0, 64], ['kk', 33, 136], ['cd', 4, 0, 60],
  ['ss', 'u256', 'one', 'v'], ['ret', 0, 64], ['ret', 70, 0], ['rev', 33, 40], ['rev', 0, 0], ['stop'], ['invalid'], ['sd']];
module.exports = require('../lib/effects').join('C13', {
  technique: 'exhaustive enumeration of offsets and lengths and of operation sequences on the real runtime library, lockstep with the byte array and the host log',
  needs: ['std'],
  bounds: t => `return, revert, keccak256 and log0..log4 at offsets around 0, 16 KiB, 64 KiB, 128 KiB and every length 0..${t === 'thorough' ? 300 : 70} and around the hash block sizes; log topics over every tuple of zero, ordinary and extreme words, in shared or separate slots; sequences of up to ${t === 'thorough' ? 4 : 3} over ${seq.length} operations`,
  assumptions: [],
  jobs: t => KINDS.flatMap(kind => [0, 1, 31, 16300, 16384, 65500, 65536, 131000].map(o => ({ kind, o, tier: t }))).concat(H.jobs([
    { name: 'halts', ops: seq, depth: 3, kinds: KINDS }, ...(t === 'thorough' ? [{ name: 'halts4', ops: seq, depth: 4, kinds: ['debug-small', 'release-large'] }] : [])], KINDS)),
  exec(job, rep) {
    if (job.o === undefined || job.only) return H.exec(job, rep);
    const base = { name: 'halts', ops: [], prefix: [], depth: 2, cd: 'small', kind: job.kind }, o = job.o;
    const one = (...h) => H.exec({ ...base, only: h }, rep);
    // every pattern of equal, zero, extreme and different topics, equal topics in one slot or in two
    if (o < 32) for (let k = 1; k <= 4; k++) { let P = ['']; for (let i = 0; i < k; i++) P = P.flatMap(p => [...(k < 4 || job.tier === 'thorough' ? 'abcdeB' : 'abeB')].map(c => p + c)); for (const p of P) for (const n of [0, 32]) one(['ms', o], ['logt', k, o, n, p]); }
    for (const n of [...Array(job.tier === 'thorough' ? 301 : 71).keys(), 95, 96, 97, 135, 136, 137, 271, 272, 273, 1000, 70000]) {
      for (const f of [['ret', o, n], ['rev', o, n], ['kk', o, n], ['log', 0, o, n], ['log', 1, o, n], ['log', 2, o, n], ['log', 3, o, n], ['log', 4, o, n]]) one(['ms', o], ['ms', o + 32], ['cd', o + 60, 0, 100], f);
      one(['kk', o, n]); one(['ret', o, n]);
    }
  },
});
