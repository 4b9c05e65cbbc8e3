'use strict';
// Client of the compiler driver (`ydrv`, built from /repo's sources): a pool of processes.
const { spawn } = require('child_process');
const path = require('path'), os = require('os'), readline = require('readline'), fs = require('fs');
const ROOT = path.resolve(__dirname, '..');
const BIN = path.join(ROOT, '.build/target/debug/ydrv');
class Proc {
  constructor(env, bin = BIN) { this.env = env; this.bin = bin; this.pending = null; this.start(); }
  start() {
    this.p = spawn(this.bin, [], { stdio: ['pipe', 'pipe', this.env.YDRV_VERBOSE ? 'inherit' : 'ignore'], env: { ...process.env, ...this.env } });
    this.p.on('error', () => {}); this.p.stdin.on('error', () => {});
    readline.createInterface({ input: this.p.stdout }).on('line', l => { const q = this.pending; this.pending = null; if (q) q(l); });
    this.p.on('exit', (c, s) => { this.dead = true; const q = this.pending; this.pending = null; if (q) q(null, c, s); });
    this.dead = false;
  }
  send(line) {
    if (this.dead) this.start();
    return new Promise(r => {
      let late = false;
      const t = setTimeout(() => { late = true; this.p.kill('SIGKILL'); }, 120000);
      this.pending = (l, c, s) => { clearTimeout(t); r(l === null ? { crash: `${s || c}`, late } : { line: l }); };
      this.p.stdin.write(line + '\n');
    });
  }
  stop() { this.p.removeAllListeners('exit'); this.p.kill(); }
}
class Compiler {
  constructor(n = os.cpus().length, bin = BIN) {
    if (!fs.existsSync(bin)) throw new Error('compiler driver not built');
    const env = { CHAIN_IR_CLANG_RT_LIB_DIR: path.join(ROOT, '.build/rt') };
    this.free = []; this.wait = []; this.all = []; this.n = 0;
    for (let i = 0; i < n; i++) { const p = new Proc(env, bin); this.free.push(p); this.all.push(p); }
  }
  // -> {ok: Uint8Array} | {err: stage, msg}; a crashed compiler process is {err: 'crash'}
  async compile(src, opts = '') {
    const p = this.free.pop() || await new Promise(r => this.wait.push(r));
    const r = await p.send(`${this.n++} ${opts || '-'} ${Buffer.from(src).toString('hex')}`);
    const q = this.wait.shift(); if (q) q(p); else this.free.push(p);
    if (r.late) throw Object.assign(new Error('the compiler has not ended after 120 s on ' + src.slice(0, 2000)), { noEnd: true });
    if (r.crash !== undefined) return { err: 'crash', msg: 'compiler process died: ' + r.crash };
    const f = r.line.split(' ');
    if (f[1] === 'ok') return { ok: new Uint8Array(Buffer.from(f[2], 'hex')), extra: f[3] };
    return { err: f[2], msg: Buffer.from(f[3] || '', 'hex').toString(), extra: f[4] };
  }
  stop() { for (const p of this.all) p.stop(); }
}
module.exports = { Compiler, ROOT };
