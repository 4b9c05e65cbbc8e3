'use strict';
// Explore snippets of Yul completely: compile them in batches, run every one on every input, compare with the reference.
const { compileAll, runBoth, stop } = require('./contract');
const { hex, H } = require('./u256');
const pad3 = w => (w.length < 3 ? w.concat(Array(3 - w.length).fill(0n)) : w);
// inputsOf(s) -> [{words, o?}] ; s.inputs overrides it. s.mayFail: a compile error is acceptable.
async function explore(sn, opts, inputsOf, rep, job, opt = {}) {
  if (job && job.only) sn = sn.filter(s => s.key === job.only);
  const n = opt.batch || 400, tag = (opts ? ' [' + opts + ']' : '') + (opt.place ? ' in ' + opt.place : '');
  for (let i = 0; i < sn.length; i += n) {
    const part = sn.slice(i, i + n), cs = await compileAll(part, opts, opt.by, opt.place);
    part.forEach((s, k) => {
      const c = cs[k], viol = (key, what) => rep.viol(key, what, job && { ...job, only: s.key });
      if (c.err) { rep.state(); rep.trace(); if (s.mayFail) { rep.cls('rejected'); return; } viol(`${s.key}${tag} compile`, `does not compile (${c.err}): ${String(c.msg).slice(0, 300)}`); return; }
      for (const inp of s.inputs || inputsOf(s)) {
        rep.state(); rep.step(); rep.trace();
        const d = runBoth(c, s, opt.by ? null : pad3(inp.words || []), () => inp.o || {}, { steps: 2e6, ...opt.ref });
        if (d && inp.mayTrap && /^trap/.test(d.got)) rep.cls('out of stack');
        else if (d) { rep.cls('differs'); viol(`${s.key}${tag}`, `call data ${opt.by ? H(inp.o.calldata) : 'words ' + (inp.words || []).map(w => hex(w)).join(',')}: expected ${d.want}, got ${d.got}`); } else { rep.cls('agrees'); if (rep.r.samples.length < 2) rep.sample(`${s.key}${tag}`); }
      }
    });
  }
}
const product = (...ls) => ls.reduce((acc, l) => acc.flatMap(a => l.map(x => [...a, x])), [[]]);
const inputs = (...ls) => product(...ls).map(words => ({ words }));
function permutations(l) { return l.length <= 1 ? [l] : l.flatMap((x, i) => permutations([...l.slice(0, i), ...l.slice(i + 1)]).map(p => [x, ...p])); }
module.exports = { explore, product, inputs, permutations, stop };
