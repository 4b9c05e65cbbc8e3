'use strict';
// Operations of the runtime library on EVM memory, each with its effect on the reference byte array.
const keccak = require('./keccak');
const { World, pat } = require('./host');
const { toBE, fromBE, hex, H } = require('./u256');
const { Std, diff } = require('./std');

const MAX = 1 << 25;
class Model { // zero-initialised byte array, highest touched byte
  constructor() { this.b = Model.pool.pop() || new Uint8Array(MAX); this.size = 0; this.hi = 0; }
  free() { this.b.fill(0, 0, this.hi); this.hi = 0; Model.pool.push(this.b); this.b = null; }
  touch(o, n) { if (n && o + n > this.size) this.size = o + n; }
  w(o, bytes) { this.touch(o, bytes.length); this.b.set(bytes, o); if (o + bytes.length > this.hi) this.hi = o + bytes.length; }
  r(o, n) { this.touch(o, n); return this.b.slice(o, o + n); }
}
Model.pool = [];
const val = k => { const r = new Uint8Array(32); for (let i = 0; i < 32; i++) r[i] = (k * 53 + i * 7 + 17) & 255 || 0xd1; return r; };
const padded = (src, o, n) => { const r = new Uint8Array(n); if (o < src.length) r.set(src.subarray(o, Math.min(src.length, o + n))); return r; };
const RD = pat(50, 0x31), EXT = pat(40, 0x77), EXTADDR = pat(20, 0x42), CODE = pat(70, 0x10);
const CD = { small: pat(70, 0x51), large: pat(130, 0x99) };
const cdOf = c => (typeof c === 'number' ? pat(c, 0x51) : CD[c]);
// ordinary storage keys, and names of immutables as keys of the runtime
const KEYS = { zero: 0n, one: 1n, two: 2n, b8: 256n, b64: 1n << 64n, top: 1n << 255n, max: (1n << 256n) - 1n, inc: fromBE(pat(32, 1)), kec: fromBE(keccak(new Uint8Array(64))), kec1: fromBE(keccak(new Uint8Array(64))) + 1n, rev: 1n << 248n };
const left = t => { const b = new Uint8Array(32); b.set(Buffer.from(t).subarray(0, 32)); return fromBE(b); }, right = t => fromBE(Buffer.from(t).subarray(0, 32));
const NAMES = { A: left('immutable_A'), B: left('immutable_B'), AA: left('immutable_AA'), n1: right('immutable_1'), n12: right('immutable_12'), long: left('immutable_' + 'x'.repeat(22)), long2: left('immutable_' + 'x'.repeat(21) + 'y') };
const LEb = v => toBE(v).reverse();

// A run of one history on a fresh instance.
class MemRun {
  constructor(kind, cd, opt = {}) {
    this.world = new World({ calldata: cdOf(cd), returndata: RD, code: CODE, ...opt.world, ext: new Map([[H(EXTADDR), { code: EXT }]]) });
    this.m = new Std(kind, this.world, opt); this.mod = new Model(); this.k = 0;
    const m = this.m;
    this.base = m.begin();
    this.arg = m.slot(); this.res = m.slot(); this.addr = m.slot(); this.topicSlots = [m.slot(), m.slot(), m.slot(), m.slot()];
    const a = new Uint8Array(32); a.set(EXTADDR, 12); m.put(this.addr, a);
    // guard bytes: memory nobody may touch
    this.guard = [m.slot() + 32, Math.min(m.top, m.heap + 4096)];
    m.u8().fill(0xa7, ...this.guard);
    this.ro = m.e.__global_base.value; this.rodata = m.get(this.ro, 64);
    this.slots = []; this.st = new Map(); this.tr = new Map(); this.im = new Map(); this.rdata = RD; this.deploying = false; this.byAddr = new Map();
  }
  // every byte of EVM memory equals the model; nothing else that must keep its value changed
  check() {
    const m = this.m, mem = m.u8(), b = m.begin(), n = Math.min(Math.max(this.mod.size, 0), mem.length - b);
    if (m.begin() < m.stackHigh) return 'EVM memory lies in the stack';
    if (this.mod.size > mem.length - b) return `memory ends at ${mem.length - b}, ${this.mod.size} bytes are accessed`;
    const A = Buffer.from(mem.buffer, b, n), B = Buffer.from(this.mod.b.buffer, 0, n);
    if (A.compare(B) !== 0) { let i = 0; while (A[i] === B[i]) i++; return `memory byte ${i}: expected ${B[i]}, got ${A[i]}`; }
    const g = mem.subarray(...this.guard);
    for (let i = 0; i < g.length; i++) if (g[i] !== 0xa7) return `memory outside EVM memory changed at ${this.guard[0] + i}`;
    if (Buffer.compare(m.get(this.ro, 64), this.rodata)) return 'constant data changed';
    for (const k of Object.values(KEYS)) if (this.world.sload(k) !== (this.st.get(k) || 0n)) return `storage ${hex(k)} changed: expected ${hex(this.st.get(k) || 0n)}, got ${hex(this.world.sload(k))}`;
    for (const [k, v] of this.world.transient) if (v !== (this.tr.get(k) || 0n)) return `transient storage ${hex(k)} changed: expected ${hex(this.tr.get(k) || 0n)}, got ${hex(v)}`;
    for (const [i, a] of this.slots.entries()) if (Buffer.compare(m.get(a.p, 32), a.v)) return `word slot ${i} changed`;
    return null;
  }
  // a word slot was handed out: 32 bytes of their own
  newSlot(p) {
    const m = this.m, top = m.u8().length, over = (a, n) => p < a + n && a < p + 32;
    if (p === 0 || p + 32 > top) return `slot at ${p} outside memory of ${top} bytes`;
    if (p % 8) return `slot at ${p} is not aligned`;
    if (p < m.stackHigh) return `slot at ${p} lies in the stack`;
    if (over(m.begin(), this.mod.size)) return `slot at ${p} lies in EVM memory (${m.begin()}+${this.mod.size})`;
    if (over(this.ro, 64)) return `slot at ${p} lies in constant data`;
    if (over(m.heap, this.guard[1] - m.heap)) return `slot at ${p} lies in memory of another owner`;
    const k = Math.floor(p / 32);
    for (const c of [k - 1, k, k + 1]) if (this.byAddr.has(c) && Math.abs(this.byAddr.get(c) - p) < 32) return `slot ${this.slots.length} at ${p} overlaps another slot`;
    this.byAddr.set(k, p);
    const v = val(this.slots.length * 7 + 3 + (this.slots.length >> 8)); m.put(p, v); this.slots.push({ p, v });
    return null;
  }
  done() { this.mod.free(); }
}
// op: { n: name, f: function of the library, go(run) -> null | what differs, end?: ends the transaction }
const ops = {};
const eq = (want, got) => (want === got ? null : `expected ${want}, got ${got}`);
const outcome = r => ('v' in r ? String(r.v) : r.halt ? `${r.halt} ${r.data}` : `trap ${r.trap}`);
const OPS = {
  ms(o) { return { n: `mstore(${o})`, f: 'wrapper_mstore_bytes32', go(x) { const v = val(++x.k); x.m.put(x.arg, v); const r = x.m.call(this.f, o, x.arg); x.mod.w(o, v); return eq('undefined', outcome(r)); } }; },
  ms256(o) { return { n: `mstore_u256(${o})`, f: 'wrapper_mstore_u256', go(x) { const v = val(++x.k); x.m.put(x.arg, v.slice().reverse()); const r = x.m.call(this.f, o, x.arg); x.mod.w(o, v); return eq('undefined', outcome(r)); } }; },
  ms32(o, v) { return { n: `mstore_u32(${o},${v >>> 0})`, f: 'wrapper_mstore_u32', go(x) { const r = x.m.call(this.f, o, v); x.mod.w(o, toBE(BigInt(v >>> 0))); return eq('undefined', outcome(r)); } }; },
  ms64(o, v) { return { n: `mstore_u64(${o},${v})`, f: 'wrapper_mstore_u64', go(x) { const r = x.m.call(this.f, o, BigInt.asIntN(64, BigInt(v))); x.mod.w(o, toBE(BigInt.asUintN(64, BigInt(v)))); return eq('undefined', outcome(r)); } }; },
  ms8(o, v) { return { n: `mstore8(${o},${v})`, f: 'wrapper_mstore_u8', go(x) { const r = x.m.call(this.f, o, v); x.mod.w(o, new Uint8Array([v & 255])); return eq('undefined', outcome(r)); } }; },
  ml(o) { return { n: `mload(${o})`, f: 'wrapper_mload_bytes32', go(x) { x.m.put(x.res, new Uint8Array(32).fill(0xee)); const r = x.m.call(this.f, o, x.res); const w = x.mod.r(o, 32); return eq('undefined', outcome(r)) || eq(H(w), H(x.m.get(x.res))); } }; },
  ml256(o) { return { n: `mload_u256(${o})`, f: 'wrapper_mload_u256', go(x) { x.m.put(x.res, new Uint8Array(32).fill(0xee)); const r = x.m.call(this.f, o, x.res); const w = x.mod.r(o, 32); return eq('undefined', outcome(r)) || eq(H(w), H(x.m.get(x.res).reverse())); } }; },
  ml32(o) { return { n: `mload_u32(${o})`, f: 'wrapper_mload_u32', go(x) { const r = x.m.call(this.f, o); return eq(String(Number(BigInt.asIntN(32, fromBE(x.mod.r(o, 32))))), outcome(r)); } }; },
  ml64(o) { return { n: `mload_u64(${o})`, f: 'wrapper_mload_u64', go(x) { const r = x.m.call(this.f, o); return eq(String(BigInt.asIntN(64, fromBE(x.mod.r(o, 32)))), outcome(r)); } }; },
  mc(d, s, n) { return { n: `mcopy(${d},${s},${n})`, f: 'wrapper_mcopy', go(x) { const r = x.m.call(this.f, d, s, n); const b = x.mod.r(s, n); x.mod.w(d, b); return eq('undefined', outcome(r)); } }; },
  cd(d, s, n) { return { n: `calldatacopy(${d},${s},${n})`, f: 'wrapper_calldata_copy', go(x) { const r = x.m.call(this.f, d, s | 0, n); x.mod.w(d, padded(x.world.calldata, s, n)); return eq('undefined', outcome(r)); } }; },
  rd(d, s, n) { return { n: `returndatacopy(${d},${s},${n})`, f: 'wrapper_returndata_copy', go(x) { const r = x.m.call(this.f, d, s, n); x.mod.w(d, padded(x.rdata, s, n)); return eq('undefined', outcome(r)); } }; },
  cc(d, s, n) { return { n: `codecopy(${d},${s},${n})`, f: 'wrapper_codecopy', go(x) { const r = x.m.call(this.f, d, s, n); x.mod.w(d, padded(x.deploying ? Buffer.concat([x.world.code, x.world.calldata]) : x.world.code, s, n)); return eq('undefined', outcome(r)); } }; },
  dc(d, s, n, f = 'wrapper_codecopy') { return { n: `${f === 'wrapper_codecopy' ? 'codecopy' : 'datacopy'}(${d},data+${s},${n})`, f, go(x) { const r = x.m.call(this.f, d, x.ro - x.base + s, n); x.mod.w(d, x.rodata.slice(s, s + n)); return eq('undefined', outcome(r)); } }; },
  ec(d, s, n) { return { n: `extcodecopy(${d},${s},${n})`, f: 'wrapper_extcode_copy', go(x) { const r = x.m.call(this.f, x.addr, d, s, n); x.mod.w(d, padded(EXT, s, n)); return eq('undefined', outcome(r)); } }; },
  kk(o, n) { return { n: `keccak256(${o},${n})`, f: 'wrapper_keccak256', go(x) { x.m.put(x.res, new Uint8Array(32).fill(0xee)); const r = x.m.call(this.f, o, n, x.res); const b = x.mod.r(o, n); return eq('undefined', outcome(r)) || eq(H(keccak(b)), H(x.m.get(x.res))); } }; },
  msize() { return { n: 'msize()', f: 'wrapper_memory_size', go(x) { const r = x.m.call(this.f); return eq(String(Math.ceil(x.mod.size / 32) * 32), outcome(r)); } }; },
  ret(o, n) { return { n: `return(${o},${n})`, f: 'wrapper_return', end: true, go(x) { const r = x.m.call(this.f, o, n); return eq('return ' + H(x.mod.r(o, n)), outcome(r)); } }; },
  rev(o, n) { return { n: `revert(${o},${n})`, f: 'wrapper_revert', end: true, go(x) { const r = x.m.call(this.f, o, n); return eq('revert ' + H(x.mod.r(o, n)), outcome(r)); } }; },
  log(k, o, n) { return { n: `log${k}(${o},${n})`, f: 'wrapper_log' + k, go(x) { 
    // topics: the argument, result and address words and the argument again
    const ps = [x.arg, x.res, x.addr, x.arg].slice(0, k); x.m.put(x.arg, val(200)); x.m.put(x.res, val(201));
    const r = x.m.call(this.f, o, n, ...ps); const b = x.mod.r(o, n);
    const want = x.want[0] = 'L ' + H(b) + ' ' + ps.map(p => hex(fromBE(x.m.get(p)))).join(',');
    return eq('undefined', outcome(r)); } }; },
  // topics by letter: equal letters are equal words, in one slot (upper case) or in slots of their own (lower case)
  logt(k, o, n, pat) { return { n: `log${k}(${o},${n},topics ${pat})`, f: 'wrapper_log' + k, go(x) {
    const W = { a: 0n, b: fromBE(val(77)), c: (1n << 256n) - 1n, d: 1n, e: 1n << 255n }, own = {};
    const ps = [...pat].map((c, i) => { const p = c < 'a' && own[c] !== undefined ? own[c] : x.topicSlots[i]; if (c < 'a') own[c] = p; x.m.put(p, toBE(W[c.toLowerCase()])); return p; });
    const r = x.m.call(this.f, o, n, ...ps), b = x.mod.r(o, n);
    x.want.push('L ' + H(b) + ' ' + [...pat].map(c => hex(W[c.toLowerCase()])).join(','));
    return eq('undefined', outcome(r)); } }; },
  call(kind, ins, inn, outs, outn, rdn) { const f = { call: 'wrapper_call_contract', delegatecall: 'wrapper_delegatecall', staticcall: 'wrapper_staticcall' }[kind];
    return { n: `${kind}(in ${ins}+${inn}, out ${outs}+${outn}, ret ${rdn})`, f, go(x) {
      const data = pat(rdn, 0x61 + x.k++); x.world.calls.push({ status: 0, data });
      x.m.put(x.arg, new Uint8Array(32));
      const a = [5n, x.addr]; if (kind === 'call') a.push(x.arg); const r = x.m.call(this.f, ...a, ins, inn, outs, outn);
      const inb = x.mod.r(ins, inn); x.mod.touch(outs, outn); x.mod.w(outs, data.slice(0, Math.min(outn, rdn)));
      x.want.push(`C ${kind} 5 ${H(EXTADDR)} ${kind === 'call' ? hex(0n) : '-'} ${H(inb)}`);
      x.world.returndata = x.rdata; // the history's other operations read fixed return data
      return eq('1', outcome(r)); } }; },
  cdl(o) { return { n: `calldataload(${o})`, f: 'wrapper_calldataload_bytes32', go(x) { x.m.put(x.res, new Uint8Array(32).fill(0xee)); const r = x.m.call(this.f, o | 0, x.res); return eq('undefined', outcome(r)) || eq(H(padded(x.world.calldata, o, 32)), H(x.m.get(x.res))); } }; },
  // storage in its three forms
  ss(form, k, v) { const f = { u256: 'wrapper_sstore_u256', le: 'wrapper_sstore_u256_using_little_endian_hostapi', b32: 'wrapper_sstore_bytes32' }[form], K = KEYS[k];
    return { n: `sstore_${form}(${k},${v})`, f, go(x) { const w = v === 'z' ? 0n : v === 'same' ? (x.st.get(K) || 0n) : fromBE(val(x.k++ + 90)); x.m.put(x.arg, (form === 'u256' ? LEb : toBE)(K)); x.m.put(x.res, (form === 'b32' ? toBE : LEb)(w));
      const r = x.m.call(f, x.arg, x.res); x.st.set(K, w); x.want.push(`S ${hex(K)} ${hex(w)}`); return eq('undefined', outcome(r)) || eq(H((form === 'u256' ? LEb : toBE)(K)), H(x.m.get(x.arg))) || eq(H((form === 'b32' ? toBE : LEb)(w)), H(x.m.get(x.res))); } }; },
  sl(form, k) { const f = { u256: 'wrapper_sload_u256', le: 'wrapper_sload_u256_using_little_endian_hostapi', b32: 'wrapper_sload_bytes32' }[form], K = KEYS[k];
    return { n: `sload_${form}(${k})`, f, go(x) { x.m.put(x.arg, toBE(K)); x.m.put(x.res, new Uint8Array(32).fill(0xee)); const r = x.m.call(f, x.arg, x.res); return eq('undefined', outcome(r)) || eq(H((form === 'b32' ? toBE : LEb)(x.st.get(K) || 0n)), H(x.m.get(x.res))) || eq(H(toBE(K)), H(x.m.get(x.arg))); } }; },
  ts(form, k, v) { const f = { u256: 'wrapper_tstore_u256', b32: 'wrapper_tstore_bytes32' }[form], K = KEYS[k], enc = form === 'b32' ? toBE : LEb;
    return { n: `tstore_${form}(${k},${v})`, f, go(x) { const w = v === 'z' ? 0n : fromBE(val(x.k++ + 150)); x.m.put(x.arg, enc(K)); x.m.put(x.res, enc(w)); const r = x.m.call(f, x.arg, x.res); x.tr.set(K, w); x.want.push(`T ${hex(K)} ${hex(w)}`); return eq('undefined', outcome(r)); } }; },
  tl(form, k) { const f = { u256: 'wrapper_tload_u256', b32: 'wrapper_tload_bytes32' }[form], K = KEYS[k];
    return { n: `tload_${form}(${k})`, f, go(x) { x.m.put(x.arg, toBE(K)); x.m.put(x.res, new Uint8Array(32).fill(0xee)); const r = x.m.call(f, x.arg, x.res); return eq('undefined', outcome(r)) || eq(H((form === 'b32' ? toBE : LEb)(x.tr.get(K) || 0n)), H(x.m.get(x.res))); } }; },
  // immutables; how they are kept is the library's business (no expectation on host writes). A second
  // setimmutable of one name has no defined meaning here: it may revert.
  si(k, v) { const K = NAMES[k]; return { n: `setimmutable(${k},${v})`, f: 'wrapper_setimmutable', go(x) { x.want = null; const w = v === 'z' ? 0n : v === 'max' ? (1n << 256n) - 1n : fromBE(val(x.k++ + 33)); x.m.put(x.arg, LEb(K)); x.m.put(x.res, LEb(w)); const r = x.m.call(this.f, 0, x.arg, x.res);
    if (x.im.has(K)) { if (r.halt === 'revert') { x.stop = true; return null; } } x.im.set(K, w); return eq('undefined', outcome(r)); } }; },
  li(k) { const K = NAMES[k]; return { n: `loadimmutable(${k})`, f: 'wrapper_loadimmutable', go(x) { if (!x.im.has(K)) return null; x.m.put(x.arg, LEb(K)); x.m.put(x.res, new Uint8Array(32).fill(0xee)); const r = x.m.call(this.f, x.arg, x.res); return eq('undefined', outcome(r)) || eq(H(LEb(x.im.get(K))), H(x.m.get(x.res))); } }; },
  // call data words and sizes
  cdl256(o) { return { n: `calldataload_u256(${o})`, f: 'wrapper_calldataload_u256', go(x) { x.m.put(x.res, new Uint8Array(32).fill(0xee)); const r = x.m.call(this.f, o | 0, x.res); return eq('undefined', outcome(r)) || eq(H(padded(x.world.calldata, o, 32).reverse()), H(x.m.get(x.res))); } }; },
  sel() { return { n: 'selector()', f: 'wrapper_calldata_load_selector', go(x) { const r = x.m.call(this.f); return eq(String(Number(fromBE(padded(x.world.calldata, 0, 4))) | 0), outcome(r)); } }; },
  cds() { return { n: 'calldatasize()', f: 'wrapper_calldata_size', go(x) { return eq(String(x.world.calldata.length), outcome(x.m.call(this.f))); } }; },
  cds4() { return { n: 'calldatasize()-4', f: 'wrapper_calldata_size_minus_4', go(x) { return eq(String(x.world.calldata.length - 4), outcome(x.m.call(this.f))); } }; },
  // external calls whose return data stays readable
  xcall(kind, gas, to, value, ins, inn, outs, outn, status, rdn) { const f = { call: 'wrapper_call_contract', delegatecall: 'wrapper_delegatecall', staticcall: 'wrapper_staticcall' }[kind];
    return { n: `${kind}(gas ${gas}, ${to}, value ${value}, in ${ins}+${inn}, out ${outs}+${outn}) -> status ${status}, ${rdn} bytes`, f, go(x) {
      const data = pat(rdn, 0x61 + x.k++), addr = CALLEES[to], aw = new Uint8Array(32); aw.set(addr, 12); const v = BigInt(value), g = BigInt(gas);
      x.m.put(x.addr, aw); x.m.put(x.arg, LEb(v)); x.world.calls.push({ status, data });
      const a = [BigInt.asIntN(64, g), x.addr]; if (kind === 'call') a.push(x.arg);
      const r = x.m.call(f, ...a, ins, inn, outs, outn);
      const inb = x.mod.r(ins, inn); x.mod.touch(outs, outn); x.rdata = data;
      x.want.push(`C ${kind} ${g} ${H(addr)} ${kind === 'call' ? hex(v) : '-'} ${H(inb)}`);
      { const e = new Uint8Array(32); e.set(EXTADDR, 12); x.m.put(x.addr, e); }
      if (status === 0) { x.mod.w(outs, data.slice(0, Math.min(outn, rdn))); return eq('1', outcome(r)); }
      // a failing call is only specified to report the failure: in the EVM's way, or by reverting with the callee's data
      // reverting is how the runtime reports a failure that left fewer bytes than the output area holds, and only that
      if (r.halt === 'revert' && rdn < outn && !PRE.includes(to)) { x.stop = true; return null; }
      const b = x.m.begin(), got = x.m.get(b + outs, Math.min(outn, rdn)); x.mod.w(outs, got);
      return eq('0', outcome(r)) || (H(got) === H(data.slice(0, got.length)) ? null : PRE.includes(to) ? null : `output ${H(got)} is not the callee's ${H(data)}`); } }; },
  rds() { return { n: 'returndatasize()', f: 'wrapper_returndata_size', go(x) { return eq(String(x.rdata.length), outcome(x.m.call(this.f))); } }; },
  rdc(d, s, back) { return { n: `returndatacopy(${d},${s},returndatasize()-${s}-${back})`, f: 'wrapper_returndata_copy', go(x) { const n = x.rdata.length - s - back; if (n < 0) return null; const r = x.m.call(this.f, d, s, n); x.mod.w(d, x.rdata.slice(s, s + n)); return eq('undefined', outcome(r)); } }; },
  // creation: the code area in memory is a 4-byte length, that many bytes, then the constructor arguments
  blob(o, code, args) { return { n: `code area(${o},${code}+${args})`, f: 'wrapper_calldata_copy', go(x) { const b = Buffer.concat([Buffer.from([code >>> 24, code >>> 16 & 255, code >>> 8 & 255, code & 255]), pat(code, 0x70 + x.k++), pat(args, 0x20 + x.k)]);
    x.m.call('evm_make_sure_memory', o + b.length); x.m.u8().set(b, x.m.begin() + o); x.mod.w(o, b); return null; } }; },
  create(two, o, code, args, value, salt, status = 0) { return { n: `${two ? 'create2' : 'create'}(${o},${code}+${args},${value}${two ? ',' + salt : ''})${status ? ' fails' : ''}`, f: two ? 'wrapper_create2' : 'wrapper_create', go(x) {
    const n = 4 + code + args; let b = x.mod.r(o, n); const v = BigInt(value), s = BigInt(salt);
    if (Number(fromBE(b.slice(0, 4))) !== code) { b = Buffer.from(b); } if (Number(fromBE(b.slice(0, 4))) !== code) return null; // some other operation overwrote the length
    const addr = pat(20, 0x15 + x.k++); x.world.creates.push({ status, addr }); x.m.put(x.arg, LEb(v)); const sp = x.addr; x.m.put(sp, LEb(s)); x.m.put(x.res, new Uint8Array(32).fill(0xee));
    const r = two ? x.m.call(this.f, x.arg, o, n, sp, x.res) : x.m.call(this.f, x.arg, o, n, x.res);
    x.want.push(`N ${two ? 'create2' : 'create'} ${hex(v)} ${H(b.slice(0, 4 + code))} ${H(b.slice(4 + code))} ${two ? hex(s) : '-'}`); x.rdata = x.world.returndata;
    { const e = new Uint8Array(32); e.set(EXTADDR, 12); x.m.put(x.addr, e); }
    if (status) { if (r.halt === 'revert') { x.stop = true; return null; } return eq('0', String(fromBE(x.m.get(x.res)))); }
    return eq('undefined', outcome(r)) || eq(H(addr).padStart(64, '0'), H(x.m.get(x.res))); } }; },
  deploying() { return { n: 'deploying', f: 'set_is_deploying_tx', go(x) { x.m.call(this.f); x.deploying = true; return null; } }; },
  csz() { return { n: 'codesize()', f: 'wrapper_current_contract_code_size', go(x) { return eq(String(x.world.code.length + (x.deploying ? x.world.calldata.length : 0)), outcome(x.m.call(this.f))); } }; },
  pcsz() { return { n: 'datasize(self)', f: 'wrapper_current_contract_pure_contract_size', go(x) { return eq(String(x.world.code.length), outcome(x.m.call(this.f))); } }; },
  ecs() { return { n: 'extcodesize()', f: 'wrapper_extcode_size', go(x) { return eq(String(EXT.length), outcome(x.m.call(this.f, x.addr))); } }; },
  ech() { return { n: 'extcodehash()', f: 'wrapper_extcode_hash', go(x) { x.m.put(x.res, new Uint8Array(32).fill(0xee)); const r = x.m.call(this.f, x.addr, x.res); return eq('undefined', outcome(r)) || eq(H(keccak(EXT)), H(x.m.get(x.res))); } }; },
  stop() { return { n: 'stop()', f: 'wrapper_stop', end: true, go(x) { return eq('return ', outcome(x.m.call(this.f))); } }; },
  invalid() { return { n: 'invalid()', f: 'wrapper_invalid', end: true, go(x) { return eq('invalid ', outcome(x.m.call(this.f))); } }; },
  sd() { return { n: 'selfdestruct()', f: 'wrapper_selfdestruct', end: true, go(x) { const r = x.m.call(this.f, x.addr); x.want.push('D ' + H(EXTADDR)); return eq('selfdestruct ', outcome(r)); } }; },
  slots(n, f = 'memory_alloca_bytes32') { return { n: `${n} slots`, f, go(x) { for (let i = 0; i < n; i++) { const r = x.m.call(this.f); if (!('v' in r)) return 'no slot: ' + outcome(r); const bad = x.newSlot(r.v >>> 0); if (bad) return bad; } return null; } }; },
};
const CALLEES = { ext: EXTADDR, pre1: toBE(1n, 20), pre10: toBE(10n, 20), eleven: toBE(11n, 20), high1: (() => { const b = new Uint8Array(20); b[0] = 1; b[19] = 1; return b; })(), zero: new Uint8Array(20), ff: new Uint8Array(20).fill(255) };
const PRE = ['pre1', 'pre10'];
// run one history; returns {bad: null | text, at}
function runHistory(kind, cd, hist, opt, each) {
  const x = new MemRun(kind, cd, opt);
  try {
    for (let i = 0; i < hist.length; i++) {
      if (!x.m.has(hist[i].f)) continue;
      const t0 = x.world.trace.length; x.want = [];
      let bad = hist[i].go(x);
      if (!bad && x.want) bad = eq(x.want.join(' | '), x.world.trace.slice(t0).join(' | '));
      if (!bad && (i === hist.length - 1 || each) && !hist[i].end && !x.stop) bad = x.check();
      if (bad) return { bad, at: i };
      if (hist[i].end || x.stop) break;
    }
    return { bad: null };
  } finally { x.done(); }
}
module.exports = { MemRun, Model, OPS, runHistory, outcome, eq, val, padded, CD, RD, EXT, EXTADDR, CODE };
