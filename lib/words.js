'use strict';
// Word domains for exhaustive products.
const M = (1n << 256n) - 1n;
const uniq = a => [...new Set(a)];
// the corner words: around every limb, sign and byte boundary
const P = n => 1n << BigInt(n);
const INC = BigInt('0x' + Array.from({ length: 32 }, (_, i) => (i + 1).toString(16).padStart(2, '0')).join(''));
const DEC = BigInt('0x' + Array.from({ length: 32 }, (_, i) => (255 - i).toString(16).padStart(2, '0')).join(''));
const ALT = BigInt('0x' + 'a5'.repeat(32)), HI = BigInt('0x80' + '00'.repeat(15) + '01' + '00'.repeat(15));
function around(bits) { return uniq(bits.flatMap(b => [P(b) - 1n, P(b), P(b) + 1n].map(x => x & M))); }
const small = uniq([0n, 1n, 2n, 3n, 5n, 7n, 10n, 31n, 32n, 33n, 127n, 128n, 255n, 256n, 257n]);
const neg = uniq([1n, 2n, 3n, 7n, 128n, 256n].map(x => (M + 1n - x) & M));
const corner = uniq([...small, ...neg, ...around([31, 32, 63, 64, 127, 128, 255]), INC, DEC, ALT, HI]);          // ~ 50
const core = uniq([0n, 1n, 2n, 3n, 7n, 255n, 256n, P(31), P(32) - 1n, P(32), P(63), P(64) - 1n, P(64), P(128) - 1n, P(128), P(255) - 1n, P(255), P(255) + 1n, M, M - 1n, M - 6n, INC, DEC]); // 23
const tiny = uniq([0n, 1n, 3n, P(32), P(64) - 1n, P(128), P(255), M, INC]);
const wide = uniq([...corner, ...around([7, 8, 15, 16, 23, 24, 39, 40, 47, 48, 55, 56, 71, 96, 159, 160, 191, 192, 223, 224, 247, 248, 254])]);
// one byte changed in a base pattern, every position
function bytewise(base, vals) { const r = []; for (let i = 0; i < 32; i++) for (const v of vals) r.push((base & ~(0xffn << BigInt(8 * i))) | (BigInt(v) << BigInt(8 * i))); return uniq(r); }
const bitwise = uniq(Array.from({ length: 256 }, (_, i) => P(i)));
module.exports = { M, P, uniq, around, small, neg, corner, core, tiny, wide, bytewise, bitwise, INC, DEC, ALT };
