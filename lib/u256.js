'use strict';
// 256-bit EVM word arithmetic: the oracle (Ethereum Yellow Paper / Yul specification), on BigInt.
const M = (1n << 256n) - 1n, TOP = 1n << 255n, W = 1n << 256n;
const u = x => x & M;
const s = x => (x & TOP ? x - W : x);
const ops = {
  add: (a, b) => u(a + b), sub: (a, b) => u(a - b), mul: (a, b) => u(a * b),
  div: (a, b) => (b === 0n ? 0n : a / b),
  sdiv: (a, b) => (b === 0n ? 0n : u(s(a) / s(b))),
  mod: (a, b) => (b === 0n ? 0n : a % b),
  smod: (a, b) => (b === 0n ? 0n : u(s(a) % s(b))),
  exp: (a, b) => { let r = 1n, x = a, e = b; while (e) { if (e & 1n) r = u(r * x); e >>= 1n; if (e) x = u(x * x); } return r; },
  signextend: (b, x) => { if (b > 30n) return x; const n = (b + 1n) * 8n, m = (1n << n) - 1n; return x >> (n - 1n) & 1n ? u((x & m) | (M ^ m)) : x & m; },
  lt: (a, b) => (a < b ? 1n : 0n), gt: (a, b) => (a > b ? 1n : 0n),
  slt: (a, b) => (s(a) < s(b) ? 1n : 0n), sgt: (a, b) => (s(a) > s(b) ? 1n : 0n),
  eq: (a, b) => (a === b ? 1n : 0n), iszero: a => (a === 0n ? 1n : 0n), not: a => M ^ a,
  and: (a, b) => a & b, or: (a, b) => a | b, xor: (a, b) => a ^ b,
  byte: (i, x) => (i > 31n ? 0n : x >> (8n * (31n - i)) & 255n),
  shl: (n, x) => (n > 255n ? 0n : u(x << n)), shr: (n, x) => (n > 255n ? 0n : x >> n),
  sar: (n, x) => u(s(x) >> (n > 255n ? 256n : n)),
  addmod: (a, b, n) => (n === 0n ? 0n : (a + b) % n), mulmod: (a, b, n) => (n === 0n ? 0n : (a * b) % n),
};
const hex = (x, n = 64) => x.toString(16).padStart(n, '0');
const toBE = (x, n = 32) => { const r = new Uint8Array(n); for (let i = n - 1; i >= 0; i--) { r[i] = Number(x & 255n); x >>= 8n; } return r; };
const fromBE = b => { let s = ''; for (const x of b) s += x.toString(16).padStart(2, '0'); return s ? BigInt('0x' + s) : 0n; };
const H = b => Buffer.from(b.buffer, b.byteOffset, b.length).toString('hex');
const unH = h => new Uint8Array(Buffer.from(h, 'hex'));
module.exports = { M, TOP, W, u, s, ops, hex, toBE, fromBE, H, unH };
