'use strict';
// A small host for the runtime library: new instance per transaction; host functions given by the demonstration.
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const toBE = (x, n = 32) => { const r = new Uint8Array(n); for (let i = n - 1; i >= 0; i--) { r[i] = Number(x & 255n); x >>= 8n; } return r; };
const fromBE = b => b.reduce((a, x) => (a << 8n) | BigInt(x), 0n);
class Halt extends Error { constructor(k, d) { super(k); this.kind = k; this.data = d; } }
function open(host = {}) {
  const s = { storage: new Map(), transient: new Map(), calldata: new Uint8Array(0), returndata: new Uint8Array(0), log: [] };
  const u8 = () => new Uint8Array(s.e.memory.buffer), rd = (p, n) => u8().slice(p >>> 0, (p >>> 0) + (n >>> 0)), wr = (p, b) => u8().set(b, p >>> 0);
  const key = p => fromBE(rd(p, 32));
  const base = {
    getCallDataSize: () => s.calldata.length, callDataCopy: (t, o, n) => wr(t, s.calldata.slice(o, o + n)),
    getReturnDataSize: () => s.returndata.length, returnDataCopy: (t, o, n) => wr(t, s.returndata.slice(o, o + n)),
    storageStore: (k, v) => s.storage.set(key(k), key(v)), storageLoad: (k, p) => wr(p, toBE(s.storage.get(key(k)) || 0n)),
    storageStoreLittleEndian: (k, v) => s.storage.set(key(k), fromBE(rd(v, 32).reverse())),
    storageLoadLittleEndian: (k, p) => wr(p, toBE(s.storage.get(key(k)) || 0n).reverse()),
    transientStore: (k, v) => s.transient.set(key(k), key(v)), transientLoad: (k, p) => wr(p, toBE(s.transient.get(key(k)) || 0n)),
    // a stand-in hash: distinct inputs of the demonstrations give distinct words
    keccak256: (p, n, r) => wr(r, require('crypto').createHash('sha256').update(rd(p, n)).digest()),
    revert: (p, n) => { throw new Halt('revert', rd(p, n)); }, finish: (p, n) => { throw new Halt('finish', rd(p, n)); },
    emitLogEvent: (p, n, k, ...t) => s.log.push([rd(p, n), t.slice(0, k).map(key)]),
  };
  const imp = {};
  for (const i of WebAssembly.Module.imports(mod)) imp[i.name] = (...a) => (host[i.name] ? host[i.name](s, ...a) : base[i.name] ? base[i.name](...a) : 0);
  s.e = new WebAssembly.Instance(mod, { env: imp }).exports;
  s.e.__init_evm_heap(0);
  let top = (s.e.__heap_base.value + 255) & ~255;
  Object.assign(s, { rd, wr, u8, word: x => { const p = top; top += 64; wr(p, toBE(x || 0n)); return p; }, u256: x => { const p = top; top += 64; wr(p, toBE(x || 0n).reverse()); return p; },
    be: p => fromBE(rd(p, 32)), le: p => fromBE(rd(p, 32).reverse()) });
  s.call = (f, ...a) => { try { return { v: s.e[f](...a) }; } catch (x) { if (x instanceof Halt) return { halt: x.kind, data: x.data }; throw x; } };
  return s;
}
function check(what, got, want) { const a = String(got), b = String(want); if (a !== b) { console.log(`FAIL ${what}: got ${a}, expected ${b}`); process.exitCode = 1; } else console.log('ok ' + what); }
module.exports = { open, check, toBE, fromBE };
