'use strict';
// One library call: its value, its result bytes, and that nothing else but the stack changed (optionally also
// allowing named ranges, e.g. the library's own cached state).
const { Std, diff } = require('./std');
class Frame {
  constructor(kind, world, rep, job) { this.m = new Std(kind, world); this.rep = rep; this.job = job; this.kind = kind; this.img = this.m.u8().slice(); this.stack = [this.m.stackLow, this.m.stackHigh]; this.free = []; }
  poke(a, b) { this.m.put(a, b); this.img.set(b, a); return a; }
  garbage(a, n = 32) { return this.poke(a, new Uint8Array(n).fill(0xee)); }
  // want: hex of the n result bytes at p (n > 0), else the returned value as text
  run(f, args, p, n, want, key, show) {
    const { m, rep } = this;
    if (!m.has(f)) { rep.cls('absent ' + f); return; }
    rep.state(); rep.step(); rep.trace(); rep.cls(f);
    const r = m.call(f, ...args), mem = m.u8();
    const got = r.halt ? `${r.halt} ${r.data}` : r.trap ? 'trap ' + r.trap : n ? Buffer.from(mem.slice(p, p + n)).toString('hex') : String(r.v);
    if (got !== want) rep.viol(`${f}(${key})`, `${this.kind}: expected ${want}, got ${got}`, { ...this.job, only: key });
    const d = diff(this.img, mem, [this.stack, [p, p + n], ...this.free]);
    if (d.length) rep.viol(`${f}(${key}) writes elsewhere`, `${this.kind}: bytes at ${d.join(',')} changed (result at ${p})`, { ...this.job, only: key });
    if (mem.length !== this.img.length || d.length || this.free.length) this.img = mem.slice();
    else { if (n) this.img.set(mem.subarray(p, p + n), p); this.img.set(mem.subarray(...this.stack), this.stack[0]); }
    if (show) rep.sample(`${this.kind} ${f}(${key}) = ${want}`);
  }
}
module.exports = { Frame };
