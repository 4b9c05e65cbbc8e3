'use strict';
// C06: every word primitive of the runtime library, called directly in both builds, over complete products of
// corner words; after each call the whole linear memory outside result and stack must be as before.
const { Std, KINDS, diff } = require('../lib/std');
const W = require('../lib/words');
const { ops, toBE, fromBE, hex, s } = require('../lib/u256');
const LE = x => toBE(x).reverse(), fromLE = b => fromBE(b.slice().reverse());

const pairDomain = t => t === 'thorough' ? W.uniq([...W.wide, ...W.bytewise(W.INC, [0, 1, 0x7f, 0x80, 0xff]), ...W.bytewise(W.M, [0, 0x7f])])
  : W.uniq([...W.wide, ...W.bytewise(W.INC, [0, 0x7f, 0x80, 0xff])]);
const unDomain = t => W.uniq([...W.wide, ...W.bitwise, ...W.bytewise(0n, t === 'thorough' ? [...Array(256).keys()] : [1, 0x7f, 0x80, 0xff]), ...W.bytewise(W.M, [0, 0x7f, 0x80, 0xfe])]);
const shiftDomain = t => [...Array(t === 'thorough' ? 1200 : 300).keys(), 511, 512, 513, 4095, 65535, 65536, 0x7fffff00, 0x7fffffff];
const GROUPS = ['cmp', 'bit', 'add', 'un', 'shl', 'shr', 'ushl', 'ushr', 'exp', 'sext', 'conv', 'mem', 'str', 'same', 'carry', 'expbits', 'shiftbits', ...[0, 1, 2, 3].map(k => 'limbs' + k)];
const b2 = { lt: ops.lt, gt: ops.gt, slt: ops.slt, sgt: ops.sgt, eq: ops.eq };

function exec(job, rep) {
  const m = new Std(job.kind), A = m.slot(), B = m.slot(), R = m.slot(), U = m.heap + 1027;
  const t = job.tier;
  const stack = [m.stackLow, m.stackHigh];
  // one call: check value and that only [rp, rp+rn) and the stack changed
  let img = m.u8().slice();
  const run = (f, args, rp, rn, want, key, show) => {
    if (!m.has(f)) { rep.cls('absent ' + f); return; }
    rep.state(); rep.step(); rep.trace();
    const r = m.call(f, ...args), mem = m.u8();
    let got;
    if (r.v === undefined && (r.halt || r.trap)) got = r.halt ? 'halt ' + r.halt : 'trap ' + r.trap;
    else got = rn ? Buffer.from(mem.slice(rp, rp + rn)).toString('hex') : String(r.v);
    if (got !== want) rep.viol(`${f}(${key})`, `${job.kind}: expected ${want}, got ${got}`, { ...job, only: f });
    const d = diff(img, mem, [stack, [rp, rp + rn]]);
    if (d.length) rep.viol(`${f}(${key}) writes elsewhere`, `${job.kind}: bytes at ${d.join(',')} changed (result at ${rp})`, { ...job, only: f });
    if (mem.length !== img.length || d.length) img = mem.slice(); else if (rn) img.set(mem.subarray(rp, rp + rn), rp), syncStack(img, mem);
    else syncStack(img, mem);
    rep.cls(f);
    if (show !== undefined) rep.sample(`${job.kind} ${f}(${key}) = ${want}`);
  };
  const syncStack = (i, mem) => i.set(mem.subarray(stack[0], stack[1]), stack[0]);
  const poke = (a, b) => { m.put(a, b); img.set(b, a); return a; };
  const H = b => Buffer.from(b).toString('hex'), be = x => hex(x), le = x => H(LE(x));
  const garbage = a => poke(a, new Uint8Array(32).fill(0xee));
  if (job.g === 'cmp' || job.g === 'bit' || job.g === 'add') {
    const D = pairDomain(t);
    for (const a of D) { poke(A, toBE(a)); for (const b of D) { poke(B, toBE(b));
      const key = hex(a) + ',' + hex(b);
      if (job.g === 'cmp') for (const [n, f] of Object.entries(b2)) run('wrapper_bytes32_' + n, [A, B], R, 0, String(f(a, b)), key, a === 3n ? 1 : undefined);
      if (job.g === 'bit') for (const n of ['and', 'or', 'xor']) { garbage(R); run('wrapper_bytes32_' + n, [A, B, R], R, 32, be(ops[n](a, b)), key); }
      if (job.g === 'add') { garbage(R); run('wrapper_bytes32_add', [A, B, R], R, 32, be(ops.add(a, b)), key); }
    } }
    // bytes of one operand: every pair of byte values at every position
    const S = [0, 1, 0x7f, 0x80, 0xfe, 0xff];
    if (job.g === 'cmp') for (let p = 0; p < 32; p++) for (const x of S) for (const y of S) for (const rest of [0, 1]) {
      const a = new Uint8Array(32).fill(0x55), b = a.slice(); a[p] = x; b[p] = y; if (p < 31) { a[p + 1] = rest ? 9 : 1; b[p + 1] = rest ? 1 : 9; }
      poke(A, a); poke(B, b);
      for (const [n, f] of Object.entries(b2)) run('wrapper_bytes32_' + n, [A, B], R, 0, String(f(fromBE(a), fromBE(b))), H(a) + ',' + H(b));
    }
    // unaligned operands
    if (job.g !== 'cmp') for (const a of W.tiny) for (const b of W.tiny) { poke(U, toBE(a)); poke(U + 100, toBE(b)); garbage(U + 201);
      for (const n of job.g === 'bit' ? ['and', 'or', 'xor'] : ['add']) run('wrapper_bytes32_' + n, [U, U + 100, U + 201], U + 201, 32, be(ops[n](a, b)), 'unaligned ' + hex(a) + ',' + hex(b)); }
  }
  // both operands at one address
  if (job.g === 'same') for (const a of unDomain(t)) {
    poke(A, toBE(a));
    for (const [n, f] of Object.entries(b2)) run('wrapper_bytes32_' + n, [A, A], R, 0, String(f(a, a)), 'same ' + hex(a));
    for (const n of ['and', 'or', 'xor', 'add']) { garbage(R); run('wrapper_bytes32_' + n, [A, A, R], R, 32, be(ops[n](a, a)), 'same ' + hex(a)); }
    poke(A, LE(a)); garbage(R); run('wrapper_exp', [A, A, R], R, 32, le(ops.exp(a, a)), 'same ' + hex(a));
  }
  // all pairs of words whose four limbs are each zero, one, the top bit or full (one limb of the first operand fixed per job)
  if (job.g.startsWith('limbs')) {
    const V = [0n, 1n, W.P(63), W.P(64) - 1n], word = k => V[k & 3] | V[k >> 2 & 3] << 64n | V[k >> 4 & 3] << 128n | V[k >> 6] << 192n;
    for (let i = +job.g[5]; i < 256; i += 4) { const a = word(i); poke(A, toBE(a)); for (let j = 0; j < 256; j++) { const b = word(j); poke(B, toBE(b));
      const key = hex(a) + ',' + hex(b);
      for (const [n, f] of Object.entries(b2)) run('wrapper_bytes32_' + n, [A, B], R, 0, String(f(a, b)), key);
      for (const n of ['and', 'or', 'xor', 'add']) run('wrapper_bytes32_' + n, [A, B, R], R, 32, be(ops[n](a, b)), key);
    } }
  }
  // a carry that starts at byte p and runs to byte q, with every pair of low bytes that makes or just misses it
  if (job.g === 'carry') for (let p = 0; p < 32; p++) for (let q = p; q < 32; q++) for (const [x, y] of [[0xff, 1], [0xff, 0], [0x80, 0x80], [0x7f, 0x80], [0xff, 0xff], [1, 0xff], [0xfe, 1]]) for (const below of [0n, W.P(8 * p) - 1n]) {
    const run1 = (W.P(8 * q + 8) - 1n) & ~(W.P(8 * p + 8) - 1n), a = run1 | BigInt(x) << BigInt(8 * p) | below, b = BigInt(y) << BigInt(8 * p) | (below && 1n);
    for (const [u, v] of [[a, b], [b, a]]) { poke(A, toBE(u)); poke(B, toBE(v)); run('wrapper_bytes32_add', [A, B, R], R, 32, be(ops.add(u, v)), hex(u) + ',' + hex(v)); }
  }
  // exponents of every bit length, all small ones, every pair of bits; bases of every limb pattern
  if (job.g === 'expbits') {
    const bases = [2n, 3n, 7n, 10n, 255n, 256n, W.P(64) - 1n, W.P(64) + 1n, W.P(128) - 1n, W.M, W.M - 2n, W.INC | 1n, W.DEC];
    const exps = W.uniq([...Array(t === 'thorough' ? 1100 : 300).keys()].map(BigInt).concat(...Array.from({ length: 256 }, (_, i) => [W.P(i), W.P(i) - 1n, W.P(i) + 1n, W.M ^ W.P(i)])));
    for (const a of bases) { poke(A, LE(a)); for (const e of exps) { poke(B, LE(e)); run('wrapper_exp', [A, B, R], R, 32, le(ops.exp(a, e)), hex(a) + ',' + hex(e)); } }
  }
  // every single bit and its complement shifted by every amount
  if (job.g === 'shiftbits') for (let i = 0; i < 256; i++) for (const a of t === 'thorough' ? [W.P(i), W.M ^ W.P(i)] : [W.P(i)]) for (let n = 0; n < 258; n += t === 'thorough' ? 1 : 1 + (i + n & 3)) for (const [f, enc, out, op] of [['wrapper_bytes32_shl', toBE, be, 'shl'], ['wrapper_bytes32_shr', toBE, be, 'shr'], ['wrapper_u256_shl', LE, le, 'shl'], ['wrapper_u256_shr', LE, le, 'shr']]) {
    poke(A, enc(a)); run(f, [A, n, R], R, 32, out(ops[op](BigInt(n), a)), hex(a) + ',' + n);
  }
  if (job.g === 'un') for (const a of unDomain(t)) {
    poke(A, toBE(a));
    run('wrapper_bytes32_iszero', [A], R, 0, String(ops.iszero(a)), hex(a));
    garbage(R); run('wrapper_bytes32_not', [A, R], R, 32, be(ops.not(a)), hex(a));
  }
  const sh = (f, enc, out, op) => { for (const a of t === 'thorough' ? W.uniq([...W.wide, ...W.bitwise, ...W.bytewise(0n, [1, 0x80, 0xff])]) : W.wide) { poke(A, enc(a)); for (const n of shiftDomain(t)) { garbage(R);
    run(f, [A, n, R], R, 32, out(ops[op](BigInt(n), a)), hex(a) + ',' + n, n === 9 ? 1 : undefined); } } };
  if (job.g === 'shl') sh('wrapper_bytes32_shl', toBE, be, 'shl');
  if (job.g === 'shr') sh('wrapper_bytes32_shr', toBE, be, 'shr');
  if (job.g === 'ushl') sh('wrapper_u256_shl', LE, le, 'shl');
  if (job.g === 'ushr') sh('wrapper_u256_shr', LE, le, 'shr');
  if (job.g === 'exp') { const D = t === 'thorough' ? W.corner : W.core;
    for (const a of D) { poke(A, LE(a)); for (const b of W.uniq([...D, 4n, 6n, 8n, 9n, 15n, 16n, 17n, 64n, 254n])) { poke(B, LE(b)); garbage(R); run('wrapper_exp', [A, B, R], R, 32, le(ops.exp(a, b)), hex(a) + ',' + hex(b), b === 3n ? 1 : undefined); } } }
  if (job.g === 'sext') for (const a of t === 'thorough' ? unDomain(t) : W.uniq([...W.wide, ...W.bytewise(W.INC, [0x7f, 0x80])])) { poke(A, LE(a));
    for (const n of [...Array(36).keys(), 63, 255, 256, 0x7fffffff, -0x80000000, -1]) { garbage(R); run('wrapper_sign_extend', [n, A, R], R, 32, le(ops.signextend(BigInt(n >>> 0), a)), (n >>> 0) + ',' + hex(a)); } }
  if (job.g === 'conv') {
    for (const a of unDomain(t)) {
      poke(A, LE(a)); garbage(R); run('u256_to_big_endian_bytes', [A, R], R, 32, be(a), hex(a));
      poke(A, toBE(a)); garbage(R); run('u256_from_big_endian_bytes', [A, R], R, 32, le(a), hex(a));
      garbage(R); run('wrapper_decode_big_endian_i256_from_wasm_mem', [A, R], R, 32, le(a), hex(a));
      run('i32_from_big_endian_bytes32', [A], R, 0, String(Number(BigInt.asIntN(32, a))), hex(a));
      poke(U, toBE(a)); garbage(R); run('u256_from_big_endian_bytes', [U, R], R, 32, le(a), 'unaligned ' + hex(a));
    }
    const I = W.uniq([...unDomain(t).map(x => Number(BigInt.asIntN(32, x))), ...[...Array(32).keys()].flatMap(b => [0, 1, 0x7f, 0x80, 0xff].map(v => (v << b) | 0))]);
    for (const v of I) { garbage(R); run('i32_to_bytes32_big_endian_bytes', [v, R], R, 32, be(BigInt(v >>> 0)), String(v)); }
  }
  if (job.g === 'mem') {
    const L = [...Array(t === 'thorough' ? 300 : 80).keys(), 127, 128, 129, 255, 256, 257, 1000];
    const src = new Uint8Array(1100).map((_, i) => (i * 37 + 11) & 255), P = m.heap + 2048, Q = m.heap + 3584;
    for (const n of L) for (const o of [0, 1, 3, 7]) {
      poke(P, src); poke(Q, new Uint8Array(1100).fill(0xcc));
      run('memcpy', [Q + o, P + 5, n], Q + o, n, n ? H(src.slice(5, 5 + n)) : String(Q + o), `${o},${n}`);
      for (const f of ['memset', '__memset']) for (const v of [0, 0xff, 0x1a5]) { poke(Q, new Uint8Array(1100).fill(0xcc)); run(f, [Q + o, v, n], Q + o, n, n ? H(new Uint8Array(n).fill(v)) : f === 'memset' ? String(Q + o) : 'undefined', `${o},${v},${n}`); }
    }
    for (const n of L.filter(x => x < 300)) { poke(P, src); poke(Q, src);
      run('__memcmp', [P, n, Q, n], Q, 0, '1', `equal ${n}`); run('__memcmp', [P, n, Q, n + 1], Q, 0, '0', `longer ${n}`); run('__memcmp', [P, n + 1, Q, n], Q, 0, '0', `shorter ${n}`);
      for (const d of W.uniq([0, n >> 1, n - 1])) if (d >= 0 && d < n) for (const x of [1, 0x80]) { const q = src.slice(); q[d] ^= x; poke(Q, q); run('__memcmp', [P, n, Q, n], Q, 0, '0', `differ ${n} at ${d} by ${x}`); poke(Q, src); } }
  }
  if (job.g === 'str') {
    const vs = new Set([0, -2147483648, 2147483647, -2147483647]); const lim = t === 'thorough' ? 120000 : 12000;
    for (let v = -lim; v <= lim; v++) vs.add(v);
    for (let p = 1; p < 2147483647; p *= 10) for (const d of [-1, 0, 1]) for (const k of [1, 2, 9]) for (const sg of [1, -1]) if (Math.abs(p * k + d) < 2147483648) vs.add(sg * (p * k + d));
    for (let b = 0; b < 31; b++) { vs.add(1 << b); vs.add(-(1 << b)); vs.add((1 << b) - 1); }
    const Q = m.heap + 2048;
    for (const v of vs) for (const size of [12, 13, 64]) {
      const str = String(v); poke(Q, new Uint8Array(80).fill(0xcc));
      run('int32_to_str', [v, Q, size], Q, str.length + 1, H(Buffer.from(str + '\0')), `${v},${size}`, v === -7 ? 1 : undefined);
      if (m.has('int32_to_str')) { poke(Q, new Uint8Array(80).fill(0xcc)); const r = m.call('int32_to_str', v, Q, size); img.set(m.u8().subarray(Q, Q + 80), Q); syncStack(img, m.u8()); if (r.v !== str.length) rep.viol(`int32_to_str(${v},${size}) length`, `expected ${str.length}, got ${JSON.stringify(r)}`); }
    }
  }
}
module.exports = {
  technique: 'exhaustive product enumeration of corner words, shift amounts and lengths on the real library, lockstep with BigInt semantics and a whole-memory frame check',
  needs: ['std'],
  bounds: t => `operands: corner words and one-byte variants at all 32 positions, all pairs; all pairs of the 256 words of limbs in {0, 1, 2^63, 2^64-1}; carries from every byte to every byte; exponents of every bit and its neighbours; one address for both operands; every bit under the shift amounts; all shift amounts ${t === 'thorough' ? '0..1199' : '0..299'} plus large ones; both builds (-O0 debug, -O2 release)`,
  assumptions: ['32-bit signed shift amounts of the C primitives are taken as non-negative', 'result slots do not alias operands'],
  jobs: tier => ['debug-small', 'release-small'].flatMap(kind => GROUPS.map(g => ({ kind, g, tier }))),
  exec,
};
