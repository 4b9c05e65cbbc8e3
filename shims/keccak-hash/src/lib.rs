//! Offline stand-in for keccak-hash 0.11: `keccak256(&mut data)` hashes in place (first 32 bytes).
const RC: [u64; 24] = [
    0x1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8a, 0x88,
    0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002,
    0x8000000000000080, 0x800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008,
];
fn f1600(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut b = [0u64; 25];
        let (mut x, mut y) = (1usize, 0usize);
        b[0] = a[0];
        let mut cur = a[1];
        for t in 0..24u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            b[nx + 5 * ny] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            x = nx;
            y = ny;
            cur = a[x + 5 * y];
        }
        for y in 0..5 {
            for x in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            }
        }
        a[0] ^= rc;
    }
}
pub fn hash(data: &[u8]) -> [u8; 32] {
    let mut s = [0u64; 25];
    let mut m = data.to_vec();
    m.push(1);
    while m.len() % 136 != 0 {
        m.push(0);
    }
    *m.last_mut().unwrap() |= 0x80;
    for blk in m.chunks(136) {
        for i in 0..17 {
            s[i] ^= u64::from_le_bytes(blk[i * 8..i * 8 + 8].try_into().unwrap());
        }
        f1600(&mut s);
    }
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[i * 8..i * 8 + 8].copy_from_slice(&s[i].to_le_bytes());
    }
    o
}
pub use ethereum_types::H256;
pub const KECCAK_EMPTY: H256 = H256([
    0xc5, 0xd2, 0x46, 0x01, 0x86, 0xf7, 0x23, 0x3c, 0x92, 0x7e, 0x7d, 0xb2, 0xdc, 0xc7, 0x03, 0xc0, 0xe5, 0x00, 0xb6, 0x53, 0xca, 0x82,
    0x27, 0x3b, 0x7b, 0xfa, 0xd8, 0x04, 0x5d, 0x85, 0xa4, 0x70,
]);
pub fn keccak<T: AsRef<[u8]>>(s: T) -> H256 {
    H256(hash(s.as_ref()))
}
pub fn keccak_256(input: &[u8], output: &mut [u8]) {
    output[..32].copy_from_slice(&hash(input));
}
/// keccak-hash's in-place API: replaces the first 32 bytes of `data` with the hash of `data`.
pub fn keccak256(data: &mut [u8]) {
    let h = hash(data);
    data[..32].copy_from_slice(&h);
}
#[cfg(test)]
mod t {
    #[test]
    fn empty() {
        assert_eq!(super::hash(b"")[..4], [0xc5, 0xd2, 0x46, 0x01]);
        assert_eq!(super::keccak(b""), super::KECCAK_EMPTY);
        assert_eq!(super::hash(b"abc")[..4], [0x4e, 0x03, 0x65, 0x7a]);
    }
}
