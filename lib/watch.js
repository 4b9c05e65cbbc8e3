'use strict';
// Notices an execution of the code under test that does not end. A loop inside wasm blocks the thread that runs it, so a
// second thread watches: when one call has been running for the limit, it writes down what ran and ends the process;
// tools/run.js reports it as a violation. Outside a worker of tools/run.js every function here does nothing.
const LIMIT_S = +process.env.VERIF_HANG_S || 45;
let ctl = null, txt = null, last = null;
function start(file) {
  const sab = new SharedArrayBuffer(16 + 2 * 600);
  ctl = new Int32Array(sab, 0, 4); txt = new Uint16Array(sab, 16);
  const { Worker } = require('worker_threads');
  const w = new Worker(`
    const { workerData: { sab, file, limit } } = require('worker_threads'), fs = require('fs');
    const ctl = new Int32Array(sab, 0, 4), txt = new Uint16Array(sab, 16);
    let seq = -1, since = 0;
    setInterval(() => {
      if (!ctl[0] || ctl[1] !== seq) { seq = ctl[1]; since = Date.now(); return; }
      if (Date.now() - since < limit * 1000) return;
      fs.writeFileSync(file, String.fromCharCode(...txt.slice(0, ctl[2])));
      process.kill(process.pid, 'SIGKILL');
    }, 1000);`, { eval: true, workerData: { sab, file, limit: LIMIT_S } });
  w.unref();
}
// what: text, or a function giving it; only looked at when it differs from the last one
function label(what) {
  if (!ctl || what === last) return;
  last = what;
  const n = Math.min(what.length, txt.length);
  for (let i = 0; i < n; i++) txt[i] = what.charCodeAt(i);
  ctl[2] = n;
}
function enter() { if (ctl) { ctl[1]++; ctl[0]++; } }
function leave() { if (ctl) ctl[0]--; }
module.exports = { start, label, enter, leave, LIMIT_S };
