'use strict';
// keccak-256 (original padding), 32-bit halves.
const RC = [1,0,0x8082,0,0x808a,0x80000000,0x80008000,0x80000000,0x808b,0,0x80000001,0,0x80008081,0x80000000,0x8009,0x80000000,0x8a,0,0x88,0,0x80008009,0,0x8000000a,0,0x8000808b,0,0x8b,0x80000000,0x8089,0x80000000,0x8003,0x80000000,0x8002,0x80000000,0x80,0x80000000,0x800a,0,0x8000000a,0x80000000,0x80008081,0x80000000,0x8080,0x80000000,0x80000001,0,0x80008008,0x80000000];
const ROT = [0,1,62,28,27,36,44,6,55,20,3,10,43,25,39,41,45,15,21,8,18,2,61,56,14];
function f(s) {
  const C = new Int32Array(10), B = new Int32Array(50);
  for (let r = 0; r < 24; r++) {
    for (let x = 0; x < 10; x++) C[x] = s[x] ^ s[x + 10] ^ s[x + 20] ^ s[x + 30] ^ s[x + 40];
    for (let x = 0; x < 5; x++) {
      const p = ((x + 4) % 5) * 2, n = ((x + 1) % 5) * 2;
      const lo = C[p] ^ (C[n] << 1 | C[n + 1] >>> 31), hi = C[p + 1] ^ (C[n + 1] << 1 | C[n] >>> 31);
      for (let y = 0; y < 50; y += 10) { s[y + 2 * x] ^= lo; s[y + 2 * x + 1] ^= hi; }
    }
    for (let x = 0; x < 5; x++) for (let y = 0; y < 5; y++) {
      const i = x + 5 * y, k = ROT[i], lo = s[2 * i], hi = s[2 * i + 1];
      const j = 2 * (y + 5 * ((2 * x + 3 * y) % 5));
      if (k === 0) { B[j] = lo; B[j + 1] = hi; }
      else if (k < 32) { B[j] = lo << k | hi >>> (32 - k); B[j + 1] = hi << k | lo >>> (32 - k); }
      else if (k === 32) { B[j] = hi; B[j + 1] = lo; }
      else { const q = k - 32; B[j] = hi << q | lo >>> (32 - q); B[j + 1] = lo << q | hi >>> (32 - q); }
    }
    for (let y = 0; y < 50; y += 10) for (let x = 0; x < 5; x++) {
      const a = y + 2 * x, b = y + 2 * ((x + 1) % 5), c = y + 2 * ((x + 2) % 5);
      s[a] = B[a] ^ (~B[b] & B[c]); s[a + 1] = B[a + 1] ^ (~B[b + 1] & B[c + 1]);
    }
    s[0] ^= RC[2 * r]; s[1] ^= RC[2 * r + 1];
  }
}
module.exports = function keccak256(data) {
  const n = Math.floor(data.length / 136) + 1, p = new Uint8Array(n * 136);
  p.set(data); p[data.length] ^= 1; p[p.length - 1] ^= 0x80;
  const s = new Int32Array(50), v = new DataView(p.buffer);
  for (let o = 0; o < p.length; o += 136) { for (let i = 0; i < 34; i++) s[i] ^= v.getInt32(o + 4 * i, true); f(s); }
  return new Uint8Array(new Uint8Array(s.buffer, 0, 32));
};
if (require.main === module) {
  const k = module.exports, h = b => Buffer.from(b).toString('hex');
  console.log(h(k(new Uint8Array(0))) === 'c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470', h(k(Buffer.from('transfer(address,uint256)'))).slice(0, 8) === 'a9059cbb');
}
