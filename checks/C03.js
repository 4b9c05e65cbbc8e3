'use strict';
const L = require('../lib/literals'), fe = require('../lib/fe');
const front = fe('C03', {});
const R = 12;
module.exports = {
  technique: 'exhaustive enumeration of literal bodies over the escape alphabet, lockstep with a reference decoder; and of literal texts x places in compiled contracts, in lockstep with a reference interpreter given the plain number',
  needs: ['fe', 'drv'],
  bounds: t => `all bodies over the escape alphabet to ${t === 'thorough' ? 'the thorough' : 'the quick'} length, every byte escape, boundary numbers; in contracts: ${Object.values(L.groups(t)).reduce((n, g) => n + g().length, 0)} pairs of a literal (7 spellings of boundary numbers, every byte and pairs of escapes in strings, lengths 0 to 32) and one of ${Object.keys(L.groups(t)).length} places, each on up to 9 words; ${L.rejects().length} literals that no word holds or that are malformed must be refused; ${L.datas().length} data literals; ${L.OPTS[t].length + 1} option sets`,
  assumptions: ['byte escapes above 7f and the escapes \\r and \\uNNNN without braces are not accepted by this compiler'],
  conformance: 'every explored state is a run of the real front end, or of the wasm the real compiler emits',
  jobs: t => [...front.jobs(t), ...Object.keys(L.groups(t)).flatMap((g, i) => ['', ...L.OPTS[t]].filter((o, j) => t === 'thorough' || !o || i % 2 === 0 && j === 1 + (i >> 1) % L.OPTS.quick.length).map(opts => ({ g, opts, tier: t }))), ...Array.from({ length: R }, (_, at) => ({ reject: at, tier: t })), { data: 1, tier: t }],
  async exec(job, rep) {
    if (job.data) return L.data(L.datas(), rep, job);
    if (job.reject !== undefined) { const l = L.rejects(); for (let i = job.reject; i < l.length; i += R) if (!job.only || job.only === l[i].key) await L.refuse(l[i], ['', 'O0', 'bytes32', 'allopt'][i % 4], rep, { ...job, only: l[i].key }); return; }
    if (job.g) return L.explore(L.groups(job.tier)[job.g]().map(L.own), job.opts, () => [], rep, job, { batch: 160 });
    return front.exec(job, rep);
  },
  done: () => require('../lib/clayer').stop(),
};
