'use strict';
// The C runtime library as a wasm module of its own (tools/build.sh std), over a World.
const fs = require('fs'), path = require('path');
const { imports, Halt, HostError, World } = require('./host');
const watch = require('./watch');
const ROOT = path.resolve(__dirname, '..');
const mods = {}, NOISE = {};
const KINDS = ['debug-small', 'debug-large', 'release-small', 'release-large'];
function load(kind) { return mods[kind] ||= new WebAssembly.Module(fs.readFileSync(path.join(ROOT, '.build/std', kind + '.wasm'))); }
class Std {
  constructor(kind, world, opt = {}) {
    this.kind = kind; this.env = { w: world || new World(), mem: () => this.u8() };
    const m = load(kind), imp = imports(this.env);
    for (const i of WebAssembly.Module.imports(m)) if (!(i.name in imp)) throw new Error('library imports unknown host function ' + i.name);
    this.inst = new WebAssembly.Instance(m, { env: imp });
    this.e = this.inst.exports; this.memory = this.e.memory;
    this.pages0 = this.memory.buffer.byteLength >>> 16;
    this.stackLow = this.e.__stack_low ? this.e.__stack_low.value : 0; this.stackHigh = this.e.__stack_high.value;
    this.heap = (this.e.__heap_base.value + 255) & ~255; this.top = this.memory.buffer.byteLength;
    if (this.top - this.heap < 6000) throw new Error('no scratch room: ' + (this.top - this.heap));
    // what lies around the operands is not zero: reading past them shows
    this.u8().set(NOISE[kind] ||= new Uint8Array(this.top - this.heap).map((_, i) => i * 167 + (i >> 8) * 31 + 91), this.heap);
    this.e.__init_evm_heap(opt.newPage ? 1 : 0);
    this.nslot = 0;
  }
  get w() { return this.env.w; } set w(x) { this.env.w = x; }
  u8() { return new Uint8Array(this.memory.buffer); }
  has(f) { return typeof this.e[f] === 'function'; }
  // scratch words: 32 bytes, 32 bytes apart, in memory the library does not know about
  slot() { const a = this.heap + 64 * this.nslot++ + 32; if (a + 64 > this.top) throw new Error('scratch full'); return a; }
  put(a, b) { this.u8().set(b, a); return a; }
  get(a, n = 32) { return this.u8().slice(a, a + n); }
  begin() { return this.e.evm_get_memory_addr(0) >>> 0; }
  // -> {v} | {halt, data} | {trap}
  call(f, ...a) {
    watch.label(f); watch.enter();
    try { return { v: this.e[f](...a) }; } catch (x) {
      if (x instanceof Halt) return { halt: x.kind, data: Buffer.from(x.data).toString('hex') };
      if (x instanceof HostError || x instanceof WebAssembly.RuntimeError || x instanceof RangeError) return { trap: String(x.message) };
      throw x;
    } finally { watch.leave(); }
  }
}
// Differences between two memory images outside the given [from,to) ranges: list of addresses (first few).
function diff(a, b, allowed) {
  const n = Math.min(a.length, b.length), r = [];
  const A = Buffer.from(a.buffer, a.byteOffset, n), B = Buffer.from(b.buffer, b.byteOffset, n);
  let at = 0;
  for (const [x, y] of [...allowed.filter(([x, y]) => y > x).sort((p, q) => p[0] - q[0]), [n, n]]) {
    if (x > at && A.compare(B, at, x, at, x) !== 0) for (let i = at; i < x && r.length < 4; i++) if (A[i] !== B[i]) r.push(i);
    at = Math.max(at, y);
  }
  return r;
}
module.exports = { Std, KINDS, load, diff, ROOT };
