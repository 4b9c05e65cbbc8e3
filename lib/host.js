'use strict';
// The chain the contract runs on: a strict EVM host. `World` is the state both the compiled contract (through
// the wasm host API) and the reference interpreter act on; every externally visible act is appended to `trace`.
const keccak = require('./keccak');
const { toBE, fromBE, H, hex, ops } = require('./u256');

const watch = require('./watch');
class Halt extends Error { constructor(kind, data) { super(kind); this.kind = kind; this.data = data || new Uint8Array(0); } }
class HostError extends Error {}

const pat = (n, seed) => { const r = new Uint8Array(n); for (let i = 0; i < n; i++) r[i] = (seed + i * 7 + (i >> 3)) & 255 || 1; return r; };
const DEFAULTS = {
  address: pat(20, 0xa1), caller: pat(20, 0xc1), origin: pat(20, 0x91), coinbase: pat(20, 0xb3),
  callvalue: 0n, prevrandao: pat(32, 0xd7), gasprice: fromBE(pat(32, 0x21)), basefee: fromBE(pat(32, 0x33)),
  blobbasefee: fromBE(pat(32, 0x45)), chainid: fromBE(pat(32, 0x57)), gasleft: 0x7ffffffffff1n, gaslimit: 0x123456789abcn,
  timestamp: 0xf1e2d3c4b5n, number: 0x1122334455n, code: pat(70, 0x10),
};
class World {
  constructor(o = {}) {
    Object.assign(this, DEFAULTS);
    this.calldata = new Uint8Array(0);
    this.storage = new Map(); this.transient = new Map();
    this.ext = new Map();        // address hex -> {code, balance, hash}
    this.calls = []; this.creates = [];  // scripted outcomes
    this.returndata = new Uint8Array(0);
    this.trace = [];
    Object.assign(this, o);
    this.storage = new Map(this.storage); this.transient = new Map(this.transient);
    this.calls = this.calls.slice(); this.creates = this.creates.slice();
  }
  ev(s) { if (this.trace.push(s) > 100000) throw new HostError('more than 100000 events in one transaction'); }
  blockhash(n) { return n >= this.number || n + 256n < this.number ? new Uint8Array(32) : keccak(toBE(n)); }
  balance(a) { const e = this.ext.get(H(a)); return e && e.balance !== undefined ? e.balance : H(a) === H(this.address) ? (this.selfbal ?? fromBE(pat(32, 0x66))) : 0n; }
  extcode(a) { const e = this.ext.get(H(a)); return e && e.code || new Uint8Array(0); }
  exthash(a) { const e = this.ext.get(H(a)); return e ? e.hash || keccak(this.extcode(a)) : new Uint8Array(32); }
  sload(k) { return this.storage.get(k) || 0n; }
  sstore(k, v) { this.storage.set(k, v); this.ev('S ' + hex(k) + ' ' + hex(v)); }
  tload(k) { return this.transient.get(k) || 0n; }
  tstore(k, v) { this.transient.set(k, v); this.ev('T ' + hex(k) + ' ' + hex(v)); }
  log(data, topics) { this.ev('L ' + H(data) + ' ' + topics.map(t => hex(t)).join(',')); }
  call(kind, gas, addr, value, data) {
    this.ev(`C ${kind} ${gas} ${H(addr)} ${value === null ? '-' : hex(value)} ${H(data)}`);
    const r = this.calls.shift() || { status: 0, data: new Uint8Array(0) };
    this.returndata = r.data; if (r.then) r.then(this); return r.status;
  }
  create(kind, value, code, data, salt) {
    this.ev(`N ${kind} ${hex(value)} ${H(code)} ${H(data)} ${salt === null ? '-' : hex(salt)}`);
    const r = this.creates.shift() || { status: 0, addr: pat(20, 0x77) };
    this.returndata = r.data || new Uint8Array(0); return r;
  }
  storageView() { const r = []; for (const [k, v] of this.storage) if (v !== 0n) r.push(hex(k) + '=' + hex(v)); return r.sort(); }
}

// The wasm host API (stdlib/hostapi.h) over a World. Reads outside what the host has are refused, so a contract
// that asks for bytes that do not exist is stopped rather than silently served.
function imports(env) { // env: {w: World, mem(): Uint8Array}
  const rd = (p, n) => { p >>>= 0; n >>>= 0; const m = env.mem(); if (p + n > m.length) throw new HostError(`host read outside memory ${p}+${n}`); return m.slice(p, p + n); };
  const wr = (p, b) => { p >>>= 0; const m = env.mem(); if (p + b.length > m.length) throw new HostError(`host write outside memory ${p}+${b.length}`); m.set(b, p); };
  const sub = (b, o, n, what) => { o >>>= 0; n >>>= 0; if (o + n > b.length) throw new HostError(`${what} outside available bytes: ${o}+${n} > ${b.length}`); return b.subarray(o, o + n); };
  const i64 = x => BigInt.asIntN(64, x);
  const g = x => BigInt.asUintN(64, x);
  return {
    getAddress: p => wr(p, env.w.address), getCaller: p => wr(p, env.w.caller), getTxOrigin: p => wr(p, env.w.origin),
    getBlockCoinbase: p => wr(p, env.w.coinbase), getCallValue: p => wr(p, toBE(env.w.callvalue)),
    getCallDataSize: () => env.w.calldata.length, callDataCopy: (t, o, n) => wr(t, sub(env.w.calldata, o, n, 'callDataCopy')),
    getBlockHash: (n, p) => { wr(p, env.w.blockhash(g(n))); return 0; },
    getBlockPrevRandao: p => wr(p, env.w.prevrandao), getBlockGasLimit: () => i64(env.w.gaslimit),
    getBlockTimestamp: () => i64(env.w.timestamp), getGasLeft: () => i64(env.w.gasleft), getBlockNumber: () => i64(env.w.number),
    getTxGasPrice: p => wr(p, toBE(env.w.gasprice)), getBaseFee: p => wr(p, toBE(env.w.basefee)),
    getBlobBaseFee: p => wr(p, toBE(env.w.blobbasefee)), getChainId: p => wr(p, toBE(env.w.chainid)),
    getExternalBalance: (a, p) => wr(p, toBE(env.w.balance(rd(a, 20)))),
    getExternalCodeHash: (a, p) => wr(p, env.w.exthash(rd(a, 20))),
    storageLoad: (k, p) => wr(p, toBE(env.w.sload(fromBE(rd(k, 32))))),
    storageStore: (k, v) => env.w.sstore(fromBE(rd(k, 32)), fromBE(rd(v, 32))),
    storageLoadLittleEndian: (k, p) => wr(p, toBE(env.w.sload(fromBE(rd(k, 32)))).reverse()),
    storageStoreLittleEndian: (k, v) => env.w.sstore(fromBE(rd(k, 32)), fromBE(rd(v, 32).reverse())),
    transientLoad: (k, p) => wr(p, toBE(env.w.tload(fromBE(rd(k, 32))))),
    transientStore: (k, v) => env.w.tstore(fromBE(rd(k, 32)), fromBE(rd(v, 32))),
    codeCopy: (p, o, n) => wr(p, sub(env.w.code, o, n, 'codeCopy')), getCodeSize: () => env.w.code.length,
    externalCodeCopy: (a, p, o, n) => { // zero padded, as EXTCODECOPY
      const c = env.w.extcode(rd(a, 20)), r = new Uint8Array(n >>> 0); r.set(c.subarray(Math.min(o >>> 0, c.length), Math.min((o >>> 0) + (n >>> 0), c.length))); wr(p, r);
    },
    getExternalCodeSize: a => env.w.extcode(rd(a, 20)).length,
    callContract: (gas, a, v, d, n) => env.w.call('call', g(gas), rd(a, 20), fromBE(rd(v, 32)), rd(d, n)),
    callCode: (gas, a, v, d, n) => env.w.call('callcode', g(gas), rd(a, 20), fromBE(rd(v, 32)), rd(d, n)),
    callDelegate: (gas, a, d, n) => env.w.call('delegatecall', g(gas), rd(a, 20), null, rd(d, n)),
    callStatic: (gas, a, d, n) => env.w.call('staticcall', g(gas), rd(a, 20), null, rd(d, n)),
    createContract: (v, c, cn, d, dn, s, two, p) => {
      const r = env.w.create(two ? 'create2' : 'create', fromBE(rd(v, 32)), rd(c, cn), rd(d, dn), two ? fromBE(rd(s, 32)) : null);
      if (r.status === 0) wr(p, r.addr); return r.status;
    },
    finish: (p, n) => { throw new Halt('return', n >>> 0 ? rd(p, n) : new Uint8Array(0)); },
    revert: (p, n) => { throw new Halt('revert', n >>> 0 ? rd(p, n) : new Uint8Array(0)); },
    invalid: () => { throw new Halt('invalid'); },
    emitLogEvent: (p, n, k, ...t) => env.w.log(n >>> 0 ? rd(p, n) : new Uint8Array(0), t.slice(0, k).map(x => fromBE(rd(x, 32)))),
    getReturnDataSize: () => env.w.returndata.length,
    returnDataCopy: (p, o, n) => wr(p, sub(env.w.returndata, o, n, 'returnDataCopy')),
    selfDestruct: a => { env.w.trace.push('D ' + H(rd(a, 20))); throw new Halt('selfdestruct'); },
    keccak256: (p, n, r) => wr(r, keccak(rd(p, n))),
    sha256: (p, n, r) => wr(r, require('crypto').createHash('sha256').update(rd(p, n)).digest()),
    addmod: (a, b, n, r) => wr(r, toBE(ops.addmod(fromBE(rd(a, 32)), fromBE(rd(b, 32)), fromBE(rd(n, 32))))),
    mulmod: (a, b, n, r) => wr(r, toBE(ops.mulmod(fromBE(rd(a, 32)), fromBE(rd(b, 32)), fromBE(rd(n, 32))))),
    debug_bytes: () => {},
  };
}

// Run one transaction of a compiled contract. Returns {kind, data (hex), trap?, world}.
function runWasm(module, entry, world) {
  const env = { w: world, mem: null };
  let inst;
  const imp = { env: imports(env) };
  for (const i of WebAssembly.Module.imports(module)) {
    if (i.module !== 'env' || !(i.name in imp.env)) throw new Error('contract imports unknown host function ' + i.module + '.' + i.name);
  }
  watch.enter();
  try {
    inst = new WebAssembly.Instance(module, imp);
    const m = inst.exports.memory;
    env.mem = () => new Uint8Array(m.buffer);
    if (inst.exports._start) inst.exports._start();
    if (!inst.exports[entry]) return { kind: 'missing', data: '', why: 'no export ' + entry };
    inst.exports[entry]();
    return { kind: 'fallthrough', data: '' };
  } catch (e) {
    if (e instanceof Halt) return { kind: e.kind, data: H(e.data) };
    if (e instanceof HostError || e instanceof WebAssembly.RuntimeError || e instanceof RangeError) return { kind: 'trap', data: '', why: String(e.message) };
    throw e;
  } finally { watch.leave(); }
}
module.exports = { World, imports, runWasm, Halt, HostError, pat };
