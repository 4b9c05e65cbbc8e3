'use strict';
// Exhaustive exploration of operation sequences on the runtime library: every sequence over an alphabet up to a
// depth, each executed from a fresh instance; the reference byte array and the frame are compared after its last
// operation (earlier operations are the last ones of shorter sequences). Ending operations are leaves.
const { runHistory, OPS } = require('./memops');
const op = spec => OPS[spec[0]](...spec.slice(1));
function jobs(alphabets, kinds) { // alphabets: [{name, ops: [spec], depth, opt, kinds?, cd?, first?}]
  const r = [];
  for (const a of alphabets) for (const kind of a.kinds || kinds) {
    r.push({ ...a, kind, prefix: [] });
    if (a.depth > 1) for (const f of a.ops) if (!op(f).end) {
      if (a.depth > 3) for (const g of a.ops) { if (!op(g).end) r.push({ ...a, kind, prefix: [f, g] }); }
      else r.push({ ...a, kind, prefix: [f] });
    }
  }
  // of each alphabet, a job with prefix [] covers what no longer prefix covers
  for (const j of r) if (!j.prefix.length) j.upto = j.depth > 3 ? 2 : 1;
  return r;
}
function exec(job, rep) {
  const A = job.ops.map(s => ({ spec: s, op: op(s) })), pre = job.prefix.map(s => ({ spec: s, op: op(s) }));
  const limit = job.only ? job.only.length : job.upto || job.depth, hist = pre.slice();
  const run = () => {
    const r = runHistory(job.kind, job.cd || 'small', hist.map(h => h.op), job.opt || {});
    rep.state(); rep.step(hist.length); rep.trace(); rep.cls(job.name + ' ' + hist[hist.length - 1].op.n.replace(/\(.*/, ''));
    if (r.bad) rep.viol(`${job.kind} ${hist.map(h => h.op.n).join('; ')}`, r.bad, { ...job, only: hist.map(h => h.spec) });
    else if (hist.length === limit) rep.sample(`${job.kind}: ${hist.map(h => h.op.n).join('; ')} agrees with the byte array`);
    return !r.bad;
  };
  if (job.only) { hist.length = 0; for (const s of job.only) hist.push({ spec: s, op: op(s) }); run(); return; }
  const go = () => { for (const a of A) { hist.push(a); if (run() && hist.length < limit && !a.op.end) go(); hist.pop(); } };
  go();
}
module.exports = { jobs, exec };
