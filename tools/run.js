'use strict';
const thin = require('../lib/thin');
// Runner of every check.
//   node tools/run.js <id> quick|thorough      run a check
//   node tools/run.js replay <file>            re-run one recorded violation
// A check module (checks/<id>.js) exports
//   level, technique, needs: layers of tools/build.sh, assumptions: [..]
//   jobs(tier) -> [job]                        the pieces of the explored space
//   exec(job, ctx) -> result                   explore one piece completely
// result: {states, transitions, validated, classes:{}, samples:[], viols:[{key, what, job?}]}.
// Exit 0: held on everything explored. 1: VIOLATION lines. Anything else: the check itself failed.
const fs = require('fs'), path = require('path'), os = require('os'), cp = require('child_process');
const ROOT = path.resolve(__dirname, '..');
const watch = require('../lib/watch');
process.chdir(ROOT);
const mode = process.argv[2];

function loadCheck(id) { return require(path.join(ROOT, 'checks', id + '.js')); }
function newResult() { return { states: 0, transitions: 0, validated: 0, nviol: 0, classes: {}, samples: [], viols: [] }; }
class Rep { // collects one job's result
  constructor() { this.r = newResult(); this.keys = new Map(); }
  state(n = 1) { this.r.states += n; }
  step(n = 1) { this.r.transitions += n; }
  trace(n = 1) { this.r.validated += n; }
  cls(c, n = 1) { this.r.classes[c] = (this.r.classes[c] || 0) + n; }
  sample(s) { if (this.r.samples.length < 3) this.r.samples.push(s); }
  viol(key, what, job) { // one entry per key; further ones only counted
    this.r.nviol++;
    const k = this.keys.get(key);
    if (k) { k.n++; return; }
    const e = { key, what, job, n: 1 };
    this.keys.set(key, e);
    if (this.r.viols.length < 400) this.r.viols.push(e);
  }
}
module.exports = { Rep, newResult, ROOT };

function build(layers) {
  for (const l of layers) {
    const r = cp.spawnSync('bash', [path.join(ROOT, 'tools/build.sh'), l], { stdio: ['ignore', 'inherit', 'inherit'] });
    if (r.status !== 0) { console.log(`build of layer ${l} failed`); process.exit(3); }
  }
}
// Run every job; a job that ends in an exception, or a worker that dies, is collected in `failures`. What does not end
// (lib/watch.js) is a violation, and ends the run. So does a violation once the run has taken very long.
function runJobs(id, jobs, onResult, failures) {
  return new Promise(resolve => {
    const n = Math.min(jobs.length, +process.env.VERIF_JOBS || os.cpus().length), t0 = Date.now(), all = [];
    let next = 0, live = 0, stop = false, bad = false;
    const more = () => next < jobs.length && !stop && !(failures.length > 20) && !(bad && Date.now() - t0 > 500e3);
    const result = (i, r) => { bad ||= r.viols.length > 0; onResult(i, r); };
    const end = () => { if (!stop) { stop = true; for (const w of all) w.kill('SIGKILL'); resolve(); } };
    if (!n) return resolve();
    const start = k => {
      const hang = path.join(os.tmpdir(), `verif-hang-${process.pid}-${k}`);
      const w = cp.fork(__filename, ['--worker', id, hang], { stdio: ['ignore', 'inherit', 'inherit', 'ipc'] });
      let cur = -1;
      live++; all.push(w);
      const feed = () => { if (more()) { cur = next++; w.send({ i: cur, job: jobs[cur] }); } else { cur = -1; w.send(null); } };
      w.on('message', m => {
        if (stop) return;
        if (m.error) failures.push(`job ${JSON.stringify(jobs[m.i]).slice(0, 200)}: ${m.error}`);
        if (m.res) result(m.i, m.res);
        if (m.noEnd) return end();
        feed();
      });
      w.on('exit', (c, s) => {
        live--;
        if (stop) return;
        if (cur >= 0 && s === 'SIGKILL' && fs.existsSync(hang)) {
          const rep = new Rep(), what = fs.readFileSync(hang, 'utf8');
          fs.unlinkSync(hang);
          rep.state(); rep.step(); rep.trace();
          rep.viol(`no end: ${what}`, `${what} in ${JSON.stringify(jobs[cur]).slice(0, 300)} has not ended after ${watch.LIMIT_S} s`, jobs[cur]);
          result(cur, rep.r);
          return end();
        }
        if (cur >= 0) { failures.push(`worker died (${s || c}) in job ${JSON.stringify(jobs[cur]).slice(0, 200)}`); if (more()) start(k); }
        if (!live) resolve();
      });
    };
    for (let i = 0; i < n; i++) start(i);
  });
}
function knownFindings(id) {
  const f = path.join(ROOT, 'known_findings.txt'), r = [];
  if (!fs.existsSync(f)) return r;
  for (const l of fs.readFileSync(f, 'utf8').split('\n')) {
    const m = /^known: property=(\S+) key=\/(.*)\/ :: (.*)$/.exec(l);
    if (m && m[1] === id) r.push({ re: new RegExp('^(?:' + m[2] + ')$', 's'), what: m[3], n: 0 });
  }
  return r;
}
const schemaLevel = c => c.level || 'model_checking';

async function main() {
  if (mode === '--worker') {
    const check = loadCheck(process.argv[3]);
    watch.start(process.argv[4]);
    process.on('message', async m => {
      if (m === null) { if (check.done) await check.done(); process.exit(0); }
      const t1 = Date.now();
      try {
        const rep = new Rep();
        const res = await check.exec(m.job, rep) || rep.r;
        for (const v of res.viols) if (v.job === undefined) v.job = m.job;
        res.ms = Date.now() - t1; process.send({ i: m.i, res });
      } catch (e) {
        if (e && e.noEnd) { const rep = new Rep(); rep.state(); rep.step(); rep.trace(); rep.viol('no end: compiler', e.message, m.job); return process.send({ i: m.i, res: rep.r, noEnd: true }); }
        process.send({ i: m.i, error: String(e && e.stack || e) });
      }
    });
    process.send({ ready: true });
    process.on('disconnect', () => process.exit(0));
    return;
  }
  if (mode === 'replay') {
    const a = JSON.parse(fs.readFileSync(process.argv[3], 'utf8'));
    const check = loadCheck(a.property);
    build(check.needs || []);
    const rep = new Rep();
    const res = await check.exec(a.job, rep) || rep.r;
    const hit = res.viols.find(v => v.key === a.key);
    console.log(`key: ${a.key}\nrecorded: ${a.what}`);
    if (hit) console.log(`reproduced: ${hit.what}`); else console.log('not reproduced on this tree');
    if (check.done) await check.done();
    process.exit(hit ? 1 : 0);
  }
  const id = mode, tier = process.argv[3] || process.env.VERIF_TIER || 'quick';
  const t0 = Date.now();
  const check = loadCheck(id);
  build(check.needs || []);
  const tb = Date.now();
  const jobs = thin.thin(id, tier, await check.jobs(tier));
  const results = [];
  const failures = [];
  await runJobs(id, jobs, (i, r) => { results[i] = r; }, failures);
  if (process.env.VERIF_TIMES) results.map((r, i) => [r && r.ms, i]).sort((a, b) => b[0] - a[0]).slice(0, +process.env.VERIF_TIMES).forEach(([ms, i]) => console.log(`  ${ms} ms, ${results[i].states} states: ${JSON.stringify(jobs[i]).slice(0, 150)}`));
  const total = newResult();
  const seen = new Map();
  for (const r of results) if (r) {
    total.states += r.states; total.transitions += r.transitions; total.validated += r.validated; total.nviol += r.nviol ?? r.viols.length;
    for (const [k, v] of Object.entries(r.classes)) total.classes[k] = (total.classes[k] || 0) + v;
    for (const s of r.samples) if (total.samples.length < 24) total.samples.push(s);
    for (const v of r.viols) if (!seen.has(v.key)) { seen.set(v.key, v); total.viols.push(v); }
  }
  // keep samples from different places
  const samples = results.length > 24 ? results.filter((r, i) => r && i % Math.ceil(results.length / 24) === 0).flatMap(r => r.samples.slice(0, 1)) : total.samples;
  const known = knownFindings(id), fresh = [];
  for (const v of total.viols) {
    const k = known.find(k => k.re.test(v.key));
    if (k) { k.n++; k.ex ??= v.key; } else fresh.push(v);
  }
  const dir = path.join(ROOT, 'evidence'); fs.mkdirSync(dir, { recursive: true });
  for (const f of fs.readdirSync(dir)) if (f.startsWith(id + '-violation-')) fs.unlinkSync(path.join(dir, f));
  const lines = [];
  fresh.sort((a, b) => a.key.length - b.key.length);
  fresh.slice(0, 10).forEach((v, i) => {
    const f = path.join(dir, `${id}-violation-${i}.json`);
    fs.writeFileSync(f, JSON.stringify({ property: id, key: v.key, what: v.what, job: v.job }, null, 1));
    console.log(`  ${v.key}: ${String(v.what).slice(0, 600)}`);
    lines.push(`VIOLATION property=${id} replay=${f}`);
  });
  const ev = {
    property: id, tier: tier === 'thorough' ? 'thorough' : 'quick', seed: +process.env.VERIF_SEED || 0, level: schemaLevel(check),
    coverage: {
      states: total.states, transitions: total.transitions, traces_validated_against_impl: total.validated,
      evaluations: total.validated, distinct_nontrivial: total.states, rule: check.rule || '', samples: samples.slice(0, 24),
      outcome_classes: total.classes, jobs: jobs.length,
      conformance: check.conformance || 'every explored model trace was executed on the implementation built from the current tree and compared observable by observable',
      bounds: (typeof check.bounds === 'function' ? check.bounds(tier) : check.bounds || '') + thin.note(id, tier),
      known_findings_seen: known.filter(k => k.n).map(k => ({ what: k.what, keys: k.n })),
      build_s: (tb - t0) / 1000,
    },
    assumptions: check.assumptions || [], wall_s: (Date.now() - t0) / 1000, violations: fresh.length,
  };
  if (ev.level === 'model_checking') { delete ev.coverage.evaluations; delete ev.coverage.distinct_nontrivial; }
  fs.writeFileSync(path.join(dir, id + '.json'), JSON.stringify(ev, null, 1));
  console.log(`${id} ${tier}: ${total.states} states, ${total.transitions} transitions, ${total.validated} traces executed on the implementation, ${fresh.length} violations, ${((Date.now() - t0) / 1000).toFixed(1)} s`);
  for (const k of known) if (k.n) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
  for (const f of failures.slice(0, 5)) console.log('failed: ' + f);
  for (const l of lines) console.log(l);
  if (failures.length && !fresh.length) process.exit(2);
  if (total.states === 0 || total.validated === 0) { console.log('nothing explored'); process.exit(4); }
  process.exit(fresh.length ? 1 : 0);
}
if (require.main === module) main().catch(e => { console.log('check failed: ' + (e && e.stack || e)); process.exit(2); });
