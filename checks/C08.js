'use strict';
// C08 at the runtime library: every call data size, every offset and length, and every sequence of reads.
const { KINDS } = require('../lib/std');
const H = require('../lib/hist');
const sizes = t => [...Array(t === 'thorough' ? 141 : 40).keys(), 63, 64, 65, 68, 95, 96, 97, 98, 99, 100, 101, 102, 131, 132, 133, 200, 300].filter((v, i, a) => a.indexOf(v) === i);
const seqSizes = [0, 1, 3, 4, 5, 31, 32, 36, 68, 99, 100, 101, 140];
const huge = [0x7fffffff, 0x80000000, 0xffffffe0, 0xffffffff, 0xfffffffc, 0x10000];
const ops = n => [['cdl', 0], ['cdl', 4], ['cdl', 36], ['cdl', n], ['cdl256', 0], ['cdl256', 4], ['cdl256', 68], ['cdl256', 0xffffffff], ['cdl', 0xfffffff0], ['sel'], ['cds'], ['cds4'],
  ['cd', 0, 0, n + 5], ['cd', 7, 3, 40], ['cd', 64, n, 10], ['cd', 1, 1, 0], ['cd', 100, 0xffffffff, 20], ['cd', 20, 98, 5], ['ms', 90], ['ml', 0], ['ms8', 3, 0xff], ['kk', 0, 50]];
module.exports = require('../lib/effects').join('C08', {
  technique: 'exhaustive enumeration of call data sizes, offsets and lengths and of read sequences on the real runtime library, lockstep with a zero-padded byte array',
  needs: ['std'],
  bounds: t => `call data sizes ${t === 'thorough' ? '0..140' : '0..39'} and around 64, 96, 100 and 132, every load offset from 0 to 40 past the end and 6 huge ones, copies of 5 lengths at each offset; all sequences of up to ${t === 'thorough' ? 4 : 3} of 22 reads and memory writes at 13 sizes (both sides of the 100-byte cache limit); four library variants`,
  assumptions: ['offsets of 32 bits'],
  jobs: t => sizes(t).flatMap(n => KINDS.map(kind => ({ size: n, kind, tier: t }))).concat(seqSizes.flatMap(n => H.jobs([
    { name: 'reads', ops: ops(n), depth: 2, cd: n, kinds: KINDS },
    { name: 'reads', ops: ops(n), depth: 3, cd: n, kinds: t === 'thorough' ? KINDS : [n % 2 ? 'release-small' : 'debug-large'] },
    ...(t === 'thorough' ? [{ name: 'reads4', ops: ops(n), depth: 4, cd: n, kinds: ['release-large'] }] : []),
  ], KINDS))),
  exec(job, rep) {
    if (job.size === undefined) return H.exec(job, rep);
    const base = { name: 'reads', ops: [], prefix: [], depth: 2, cd: job.size, kind: job.kind }, n = job.size;
    const one = (...h) => H.exec({ ...base, only: h }, rep);
    for (const f of [['sel'], ['cds'], ['cds4']]) one(f);
    for (const o of [...Array(n + 41).keys(), ...huge]) {
      one(['cdl', o]); one(['cdl256', o]);
      if (o <= n + 8 && o % (n > 40 ? 3 : 1) === 0 || huge.includes(o)) for (const l of [1, 31, 32, 33, n + 3]) one(['ms', 0], ['ms', 32], ['cd', 3, o, l]);
    }
    one(['cdl', 0], ['cdl', 0], ['cdl', n]);
  },
});
