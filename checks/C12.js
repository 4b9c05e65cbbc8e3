'use strict';
// C12 at the runtime library: contract creation and code access.
const { KINDS } = require('../lib/std');
const H = require('../lib/hist');
const MAXW = String((1n << 256n) - 1n), MIX = '0x0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20';
const seq = [['blob', 0, 10, 20], ['blob', 37, 0, 0], ['blob', 5, 40, 1], ['create', false, 0, 10, 20, 0, 0], ['create', true, 0, 10, 20, MIX, 1], ['create', false, 37, 0, 0, 5, 0], ['create', true, 5, 40, 1, MAXW, MIX],
  ['deploying'], ['csz'], ['pcsz'], ['ecs'], ['ech'], ['cc', 0, 0, 70], ['cc', 3, 60, 30], ['cc', 40, 70, 70], ['cc', 0, 141, 9], ['dc', 20, 0, 50], ['dc', 2, 9, 33, 'wrapper_data_copy'], ['ec', 0, 0, 60], ['ec', 9, 39, 3], ['ms', 0], ['ml', 8], ['cdl', 0], ['ret', 0, 80]];
const E = require('../lib/effects'), OB = require('../lib/objects');
module.exports = require('../lib/effects').join('C12', {
  technique: 'exhaustive enumeration of creation areas, code offsets and lengths and of access sequences on the real runtime library, lockstep with the code as a zero-padded byte array and the host creation log',
  needs: ['std'],
  bounds: t => `creation areas of 11 offsets x 9 code sizes x 7 argument sizes, 6 values, 6 salts, both kinds, failing too; codecopy of every offset 0..${t === 'thorough' ? '160 and every length 0..60' : '150 and 9 lengths'} with and without deployment and at 5 sizes of call data; extcodecopy and datacopy of every offset and length; sequences of up to 3 over ${seq.length} operations`,
  assumptions: ['a failing create may revert the transaction (by design)'],
  jobs: t => KINDS.flatMap(kind => [0, 1, 33, 99, 130].map(cd => ({ kind, part: 'code', cd, tier: t })).concat([{ kind, part: 'create', cd: 'small', tier: t }])).concat(H.jobs([
    { name: 'creation', ops: seq, depth: 3, kinds: t === 'thorough' ? KINDS : ['release-small', 'debug-large'] },
    ...(t === 'thorough' ? [{ name: 'creation4', ops: seq, depth: 4, kinds: ['release-large'] }] : [])], KINDS)),
  exec(job, rep) {
    if (!job.part) return H.exec(job, rep);
    const base = { name: job.part, ops: [], prefix: [], depth: 2, cd: job.cd, kind: job.kind }, th = job.tier === 'thorough';
    const one = (...h) => H.exec({ ...base, only: h }, rep);
    if (job.part === 'create') {
      for (const two of [false, true]) for (const o of [0, 1, 31, 32, 100, 16360, 16384, 65500, 65536, 131060, 200000]) for (const code of [0, 1, 3, 4, 28, 29, 255, 256, 300]) for (const args of [0, 1, 31, 32, 64, 257, 1000]) one(['blob', o, code, args], ['create', two, o, code, args, MIX, 7], ['ml', o]);
      for (const v of ['0', '1', '0xffffffffffffffff', '0x10000000000000000', MAXW, MIX]) { one(['blob', 0, 5, 5], ['create', false, 0, 5, 5, v, 0]); for (const s of ['0', '1', '0xffffffffffffffff', '0x10000000000000000', MAXW, MIX]) one(['blob', 0, 5, 5], ['create', true, 0, 5, 5, v, s]); }
      one(['blob', 9, 65536, 40], ['create', false, 9, 65536, 40, 1, 0]); one(['blob', 9, 70000, 0], ['create', true, 9, 70000, 0, 1, 3]);
      for (const two of [false, true]) one(['blob', 9, 6, 4], ['create', two, 9, 6, 4, 1, 0, 1]);
      return;
    }
    const offs = [...Array(th ? 161 : 151).keys(), 255, 65536, 0x7fffffff], lens = th ? [...Array(61).keys(), 200] : [0, 1, 2, 31, 32, 33, 69, 70, 200];
    for (const dep of [0, 1]) { for (const q of [['csz'], ['pcsz'], ['cds']]) one(...(dep ? [['deploying']] : []), q);
      for (const o of offs) for (const n of lens) one(...(dep ? [['deploying']] : []), ['ms', 0], ['cc', 5, o, n]); }
    if (job.cd === 0) { for (let o = 0; o < 50; o++) for (let n = 0; n < 60; n++) one(['ms', 0], ['ec', 7, o, n]);
      for (let o = 0; o < 64; o++) for (let n = 0; n <= 64 - o; n += th ? 1 : 3) { one(['dc', 7, o, n]); one(['dc', 7, o, n, 'wrapper_data_copy']); one(['ms', 65530], ['dc', 7, o, n]); }
      one(['ecs'], ['ech']); }
  },
}, {
  jobs: t => { const r = [], O = ['', ...E.OPTS[t]]; for (const opts of O) for (const f of ['dataTrees', 'kidTrees', 'ownTrees']) OB[f]().forEach(([key], i) => { if (t === 'thorough' || !opts || f === 'ownTrees' || i % 4 === O.indexOf(opts) % 4) r.push({ f, i, key, opts }); }); return r; },
  exec: (job, rep) => { const [key, t] = OB[job.f]()[job.i]; return OB.explore(t, job.opts, rep, job, key, OB.INPUTS); },
  bounds: () => `${OB.dataTrees().length} sets of data segments of 1 to 5000 bytes, ${OB.kidTrees().length} trees of contracts inside contracts to 3 levels, whose creation code is taken from the host call, deployed and called itself; own code and constructor arguments at 10 offsets x 7 lengths; ${OB.INPUTS.length} argument and call data sizes`,
});
