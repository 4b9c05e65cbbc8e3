'use strict';
// Adapter: the explorers of C01-C03 are compiled into the `fe` program (one process, all cores).
const cp = require('child_process'), path = require('path');
const ROOT = path.resolve(__dirname, '..');
module.exports = function fe(id, extra) {
  const bin = path.join(ROOT, '.build/target-fe/debug/fe');
  return {
    needs: ['fe'],
    jobs: tier => [{ tier }],
    async exec(job, rep) {
      const args = job.input !== undefined ? ['replay', id.toLowerCase(), Buffer.from(job.input).toString('hex')] : [id.toLowerCase(), job.tier];
      const r = cp.spawnSync(bin, args, { maxBuffer: 1 << 28, encoding: 'utf8' });
      if (r.status !== 0) throw new Error(`fe ${args.join(' ')} ended with ${r.signal || r.status}: ${r.stderr.slice(-2000)}`);
      for (const l of r.stdout.split('\n')) {
        if (!l) continue;
        const o = JSON.parse(l);
        if (o.v) rep.viol('text ' + JSON.stringify(o.v.input), `expected ${o.v.expected}, got ${o.v.actual}`, { input: o.v.input, expected: o.v.expected, actual: o.v.actual });
        if (o.actual !== undefined && o.actual !== job.expected && !(o.actual.startsWith('panic') === false && job.expected === 'no panic')) rep.viol('text ' + JSON.stringify(job.input), `expected ${job.expected}, got ${o.actual}`, job);
        if (o.stats) {
          rep.state(o.stats.states); rep.step(o.stats.transitions); rep.trace(o.stats.transitions);
          for (const [k, n] of Object.entries(o.stats.classes)) rep.cls(k, n);
          rep.r.samples = o.stats.samples;
        }
      }
      if (rep.r.viols.length && rep.r.nviol < rep.r.viols.length) rep.r.nviol = rep.r.viols.length;
    },
    ...extra,
  };
};
