'use strict';
// C07 at the runtime library: every sequence of memory operations, against one zero-initialised byte array.
const { KINDS } = require('../lib/std');
const H = require('../lib/hist');
const near = [ // short distances: overlap, alignment, single bytes
  ['ms', 0], ['ms', 1], ['ms', 32], ['ms', 40], ['ms256', 17], ['ms32', 8, 0], ['ms32', 33, -2], ['ms64', 3, '0'], ['ms64', 36, '0xfedcba9876543210'],
  ['ms8', 0, 0x1ab], ['ms8', 63, 0], ['ml', 0], ['ml', 33], ['ml256', 9], ['ml32', 4], ['ml64', 36],
  ['mc', 8, 0, 40], ['mc', 0, 8, 40], ['mc', 33, 32, 31], ['mc', 64, 1, 0], ['cd', 5, 3, 40], ['cd', 0, 60, 33], ['rd', 20, 1, 37], ['cc', 7, 11, 50], ['cc', 2, 66, 20],
  ['dc', 1, 4, 45], ['dc', 48, 0, 20, 'wrapper_data_copy'], ['ec', 3, 35, 20], ['kk', 0, 70], ['kk', 31, 2], ['msize'], ['ret', 0, 80], ['rev', 33, 31],
  ['call', 'call', 1, 40, 30, 20, 45], ['call', 'staticcall', 0, 0, 60, 40, 7],
];
const far = [ // growth: one byte before, at and behind the 16 KiB and 64 KiB boundaries, far jumps, zero lengths
  ['ms', 0], ['ms', 16352], ['ms', 16353], ['ms', 16384], ['ms', 65504], ['ms', 65505], ['ms', 65536], ['ms', 131040], ['ms', 131041], ['ms', 300000],
  ['ms8', 16383, 5], ['ms8', 16384, 6], ['ms8', 65535, 7], ['ms8', 65536, 8], ['ml', 16370], ['ml', 65530], ['ml', 200000], ['ml32', 131060],
  ['mc', 16380, 0, 40], ['mc', 0, 16380, 40], ['mc', 65500, 16300, 200], ['mc', 70000, 69990, 0], ['mc', 0, 200000, 64], ['mc', 131070, 65530, 70000],
  ['cd', 16370, 0, 30], ['cd', 65530, 0, 70], ['cd', 400000, 0, 0], ['rd', 16380, 0, 50], ['rd', 65500, 0, 50], ['cc', 65530, 0, 70], ['dc', 16380, 0, 60], ['dc', 131060, 0, 60, 'wrapper_data_copy'], ['ec', 65533, 0, 40],
  ['kk', 16380, 100], ['kk', 0, 70000], ['msize'], ['ret', 16380, 40], ['ret', 65530, 100], ['rev', 131071, 1], ['ret', 500000, 0],
  ['log', 1, 65530, 40], ['call', 'call', 16380, 10, 65530, 30, 30], ['call', 'delegatecall', 131065, 20, 16370, 30, 40], ['slots', 1],
];
const K64 = 65536, pages = [ // growth over many pages, in every order: whole pages, one byte more or less, from 16 KiB to 20 MiB
  ['ms', 5], ['ms', 16352], ['ms', 16353], ['ms', K64 - 32], ['ms', K64 - 31], ['ms', 2 * K64 - 32], ['ms', 3 * K64 - 31], ['ms8', 4 * K64 - 1, 9], ['ms8', 4 * K64, 10], ['ml', 7 * K64], ['ms', 16 * K64 - 32], ['ms', 16 * K64 - 31],
  ['ms', 31 * K64 + 4000], ['ms', 1 << 22], ['ml256', (1 << 24) - 31], ['ms8', 20 << 20, 11], ['mc', 1 << 20, 0, 70000], ['mc', 0, K64 - 16, 3 * K64], ['cd', 33 * K64 - 20, 0, 60], ['rd', 17 * K64 - 1, 0, 40], ['slots', 3], ['kk', 3 * K64 - 40, 80], ['ret', K64 - 40, 2 * K64], ['msize'],
];
const single = () => { // every offset in windows around the boundaries, each operation once, then the other accessor
  const r = [];
  for (const b of [0, 16384, 65536, 131072]) for (let d = b ? -70 : 0; d <= 40; d++) r.push(b + d);
  return r;
};
const windows = () => single().flatMap(o => [['ms', o], ['ms256', o], ['ms32', o, 0x01020304], ['ms64', o, '0x1122334455667788'], ['ms8', o, 0xab], ['ml', o], ['ml256', o], ['ml32', o], ['ml64', o],
  ['cd', o, 1, 33], ['rd', o, 2, 33], ['cc', o, 3, 33], ['dc', o, 1, 33], ['ec', o, 1, 33], ['mc', o, 10, 35], ['mc', 10, o, 35], ['kk', o, 33], ['ret', o, 33], ['rev', o, 33], ['log', 2, o, 33], ['call', 'call', o, 33, 7, 20, 20], ['call', 'call', 7, 33, o, 20, 20]]);
module.exports = require('../lib/effects').join('C07', {
  technique: 'exhaustive exploration of memory-operation sequences on the real runtime library, lockstep with a byte-array model',
  needs: ['std'],
  bounds: t => `all sequences of up to ${t === 'thorough' ? 4 : 3} operations over an alphabet of ${near.length} short-distance operations and up to ${t === 'thorough' ? '3 (4 over a reduced alphabet)' : 3} over ${far.length} growth operations, of 3 over ${pages.length} operations up to 20 MiB away; every single operation at every offset in windows around 0, 16 KiB, 64 KiB, 128 KiB, alone and after a write; debug and release builds, one-page and multi-page memory`,
  assumptions: ['offsets below 2^31 (larger ones trap)', 'the host API behaves like lib/host.js'],
  jobs: t => H.jobs([
    { name: 'near', ops: near, depth: t === 'thorough' ? 4 : 3, kinds: t === 'thorough' ? ['debug-small', 'release-large'] : ['release-large'] },
    { name: 'near', ops: near, depth: t === 'thorough' ? 3 : 2, kinds: t === 'thorough' ? ['release-small', 'debug-large'] : ['debug-small', 'debug-large', 'release-small'] },
    { name: 'far', ops: far, depth: 3, kinds: t === 'thorough' ? KINDS : ['debug-small'] },
    { name: 'far', ops: far, depth: 2, kinds: KINDS },
    { name: 'pages', ops: pages, depth: 3, kinds: t === 'thorough' ? KINDS : ['debug-small'] },
    { name: 'pages', ops: pages, depth: 2, kinds: KINDS },
    ...(t === 'thorough' ? [{ name: 'far4', ops: far.filter((_, i) => i % 3 === 0), depth: 4, kinds: ['release-small', 'release-large'] }] : []),
  ], KINDS).concat(windows().reduce((acc, o, i) => { // single operations, in batches
    const k = Math.floor(i / 200); (acc[k] ||= { name: 'window', batch: [] }).batch.push(o); return acc; }, []).flatMap(j => KINDS.map(kind => ({ ...j, kind, ops: [], prefix: [], depth: 2 })))),
  exec(job, rep) {
    if (!job.batch || job.only) return H.exec(job, rep);
    for (const o of job.batch) { H.exec({ ...job, batch: undefined, only: [o] }, rep); H.exec({ ...job, batch: undefined, only: [['ms', 20], ['ms', o[1] | 0 || 9], o] }, rep); }
  },
});
