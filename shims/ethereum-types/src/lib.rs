//! Offline stand-in: U256 with the semantics of ethereum-types 0.14 / uint 0.9 that the project uses.
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct U256(pub [u64; 4]); // little-endian limbs

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum FromStrRadixErr {
    InvalidCharacter,
    InvalidLength,
    UnsupportedRadix,
}
impl fmt::Display for FromStrRadixErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for FromStrRadixErr {}

impl U256 {
    pub const MAX: U256 = U256([u64::MAX; 4]);
    pub fn zero() -> Self {
        U256([0; 4])
    }
    pub fn one() -> Self {
        U256([1, 0, 0, 0])
    }
    pub fn max_value() -> Self {
        Self::MAX
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn mul_small_add(&mut self, m: u64, a: u64) -> bool {
        let mut c = a as u128;
        for l in self.0.iter_mut() {
            let t = (*l as u128) * (m as u128) + c;
            *l = t as u64;
            c = t >> 64;
        }
        c != 0
    }
    fn divrem_small(&mut self, d: u64) -> u64 {
        let mut r = 0u128;
        for l in self.0.iter_mut().rev() {
            let t = (r << 64) | (*l as u128);
            *l = (t / d as u128) as u64;
            r = t % d as u128;
        }
        r as u64
    }
    pub fn from_dec_str(s: &str) -> Result<Self, FromStrRadixErr> {
        let mut r = U256::zero();
        for c in s.chars() {
            let d = c.to_digit(10).ok_or(FromStrRadixErr::InvalidCharacter)?;
            if r.mul_small_add(10, d as u64) {
                return Err(FromStrRadixErr::InvalidLength);
            }
        }
        Ok(r)
    }
    pub fn from_str_radix(txt: &str, radix: u32) -> Result<Self, FromStrRadixErr> {
        match radix {
            10 => Self::from_dec_str(txt),
            16 => txt.parse(),
            _ => Err(FromStrRadixErr::UnsupportedRadix),
        }
    }
    pub fn to_big_endian(&self, b: &mut [u8]) {
        for i in 0..4 {
            b[i * 8..i * 8 + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
    }
    pub fn to_little_endian(&self, b: &mut [u8]) {
        for i in 0..4 {
            b[i * 8..i * 8 + 8].copy_from_slice(&self.0[i].to_le_bytes());
        }
    }
    pub fn from_big_endian(s: &[u8]) -> Self {
        assert!(s.len() <= 32);
        let mut b = [0u8; 32];
        b[32 - s.len()..].copy_from_slice(s);
        let mut r = U256::zero();
        for i in 0..4 {
            r.0[3 - i] = u64::from_be_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        }
        r
    }
    pub fn low_u64(&self) -> u64 {
        self.0[0]
    }
    pub fn low_u32(&self) -> u32 {
        self.0[0] as u32
    }
    pub fn as_u64(&self) -> u64 {
        if self.0[1..] != [0; 3] {
            panic!("Integer overflow when casting to u64")
        }
        self.0[0]
    }
    pub fn as_u32(&self) -> u32 {
        let v = self.as_u64();
        if v > u32::MAX as u64 {
            panic!("Integer overflow when casting to u32")
        }
        v as u32
    }
    pub fn as_usize(&self) -> usize {
        self.as_u64() as usize
    }
    pub fn bits(&self) -> usize {
        for i in (0..4).rev() {
            if self.0[i] != 0 {
                return 64 * i + (64 - self.0[i].leading_zeros() as usize);
            }
        }
        0
    }
}
impl std::str::FromStr for U256 {
    type Err = FromStrRadixErr;
    fn from_str(v: &str) -> Result<Self, Self::Err> {
        let v = v.strip_prefix("0x").unwrap_or(v);
        if v.len() > 64 {
            return Err(FromStrRadixErr::InvalidLength);
        }
        let mut r = U256::zero();
        for c in v.chars() {
            let d = c.to_digit(16).ok_or(FromStrRadixErr::InvalidCharacter)?;
            r.mul_small_add(16, d as u64);
        }
        Ok(r)
    }
}
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> Ordering {
        for i in (0..4).rev() {
            match self.0[i].cmp(&o.0[i]) {
                Ordering::Equal => {}
                x => return x,
            }
        }
        Ordering::Equal
    }
}
macro_rules! from_u { ($($t:ty),*) => { $( impl From<$t> for U256 { fn from(v: $t) -> Self { U256([v as u64, 0, 0, 0]) } } )* } }
from_u!(u8, u16, u32, u64, usize);
macro_rules! from_i { ($($t:ty),*) => { $( impl From<$t> for U256 { fn from(v: $t) -> Self {
    if v >= 0 { U256([v as u64, 0, 0, 0]) } else { panic!("Unsigned integer can't be created from negative value") } } } )* } }
from_i!(i8, i16, i32, i64, isize);
impl From<u128> for U256 {
    fn from(v: u128) -> Self {
        U256([v as u64, (v >> 64) as u64, 0, 0])
    }
}
impl<T: Into<U256>> std::ops::Shl<T> for U256 {
    type Output = U256;
    fn shl(self, s: T) -> U256 {
        let s = s.into().as_usize();
        let mut r = U256::zero();
        let (w, b) = (s / 64, s % 64);
        for i in w..4 {
            r.0[i] = self.0[i - w] << b;
            if b > 0 && i > w {
                r.0[i] |= self.0[i - w - 1] >> (64 - b);
            }
        }
        r
    }
}
impl<T: Into<U256>> std::ops::Shr<T> for U256 {
    type Output = U256;
    fn shr(self, s: T) -> U256 {
        let s = s.into().as_usize();
        let mut r = U256::zero();
        let (w, b) = (s / 64, s % 64);
        for i in w..4 {
            r.0[i - w] = self.0[i] >> b;
            if b > 0 && i + 1 < 4 {
                r.0[i - w] |= self.0[i + 1] << (64 - b);
            }
        }
        r
    }
}
impl std::ops::Add for U256 {
    type Output = U256;
    fn add(self, o: U256) -> U256 {
        let mut r = U256::zero();
        let mut c = 0u128;
        for i in 0..4 {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r.0[i] = t as u64;
            c = t >> 64;
        }
        if c != 0 {
            panic!("arithmetic operation overflow")
        }
        r
    }
}
impl std::ops::Sub for U256 {
    type Output = U256;
    fn sub(self, o: U256) -> U256 {
        let mut r = U256::zero();
        let mut br = 0i128;
        for i in 0..4 {
            let t = self.0[i] as i128 - o.0[i] as i128 - br;
            r.0[i] = t as u64;
            br = (t < 0) as i128;
        }
        if br != 0 {
            panic!("arithmetic operation overflow")
        }
        r
    }
}
macro_rules! bit { ($($tr:ident $m:ident $op:tt),*) => { $( impl std::ops::$tr for U256 { type Output = U256;
    fn $m(self, o: U256) -> U256 { let mut r = U256::zero(); for i in 0..4 { r.0[i] = self.0[i] $op o.0[i]; } r } } )* } }
bit!(BitAnd bitand &, BitOr bitor |, BitXor bitxor ^);
impl std::ops::Not for U256 {
    type Output = U256;
    fn not(self) -> U256 {
        U256([!self.0[0], !self.0[1], !self.0[2], !self.0[3]])
    }
}
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.is_zero() {
            return f.write_str("0");
        }
        let mut v = *self;
        let mut s = Vec::new();
        while !v.is_zero() {
            s.push(b'0' + v.divrem_small(10) as u8);
        }
        s.reverse();
        f.write_str(std::str::from_utf8(&s).unwrap())
    }
}
impl fmt::Debug for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::LowerHex for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s: String = self.0.iter().rev().map(|l| format!("{l:016x}")).collect();
        let t = s.trim_start_matches('0');
        f.write_str(if t.is_empty() { "0" } else { t })
    }
}

// ---- the rest of the uint API (same names, same results, same panics) ----
impl U256 {
    pub const fn one_const() -> Self {
        U256([1, 0, 0, 0])
    }
    pub fn as_u128(&self) -> u128 {
        if self.0[2] != 0 || self.0[3] != 0 {
            panic!("Integer overflow when casting to u128")
        }
        self.low_u128()
    }
    pub fn low_u128(&self) -> u128 {
        self.0[0] as u128 | (self.0[1] as u128) << 64
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0[i / 64] & (1 << (i % 64)) != 0
    }
    /// byte 0 is the least significant one, as in uint
    pub fn byte(&self, i: usize) -> u8 {
        (self.0[i / 8] >> ((i % 8) * 8)) as u8
    }
    pub fn leading_zeros(&self) -> u32 {
        256 - self.bits() as u32
    }
    pub fn trailing_zeros(&self) -> u32 {
        for i in 0..4 {
            if self.0[i] != 0 {
                return 64 * i as u32 + self.0[i].trailing_zeros();
            }
        }
        256
    }
    pub fn count_ones(&self) -> u32 {
        self.0.iter().map(|l| l.count_ones()).sum()
    }
    pub fn overflowing_add(self, o: U256) -> (U256, bool) {
        let mut r = U256::zero();
        let mut c = 0u128;
        for i in 0..4 {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r.0[i] = t as u64;
            c = t >> 64;
        }
        (r, c != 0)
    }
    pub fn overflowing_sub(self, o: U256) -> (U256, bool) {
        let (r, _) = self.overflowing_add((!o).overflowing_add(U256::one()).0);
        (r, self < o)
    }
    pub fn overflowing_mul(self, o: U256) -> (U256, bool) {
        let mut w = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let t = self.0[i] as u128 * o.0[j] as u128 + w[i + j] as u128 + c;
                w[i + j] = t as u64;
                c = t >> 64;
            }
            w[i + 4] = c as u64;
        }
        (U256([w[0], w[1], w[2], w[3]]), w[4..] != [0; 4])
    }
    pub fn overflowing_neg(self) -> (U256, bool) {
        ((!self).overflowing_add(U256::one()).0, !self.is_zero())
    }
    pub fn overflowing_pow(self, e: U256) -> (U256, bool) {
        let (mut r, mut b, mut over) = (U256::one(), self, false);
        let n = e.bits();
        for i in 0..n {
            if e.bit(i) {
                let (x, o) = r.overflowing_mul(b);
                r = x;
                over |= o;
            }
            if i + 1 < n {
                let (x, o) = b.overflowing_mul(b);
                b = x;
                over |= o;
            }
        }
        (r, over)
    }
    pub fn pow(self, e: U256) -> U256 {
        let (r, o) = self.overflowing_pow(e);
        if o {
            panic!("arithmetic operation overflow")
        }
        r
    }
    pub fn exp10(n: usize) -> U256 {
        U256::from(10u64).pow(U256::from(n))
    }
    pub fn div_mod(self, d: U256) -> (U256, U256) {
        if d.is_zero() {
            panic!("division by zero")
        }
        let (mut q, mut r) = (U256::zero(), U256::zero());
        for i in (0..self.bits()).rev() {
            let top = r.bit(255);
            r = r << 1usize;
            if self.bit(i) {
                r.0[0] |= 1;
            }
            if top || r >= d {
                r = r.overflowing_sub(d).0;
                q.0[i / 64] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
    pub fn checked_add(self, o: U256) -> Option<U256> {
        match self.overflowing_add(o) {
            (r, false) => Some(r),
            _ => None,
        }
    }
    pub fn checked_sub(self, o: U256) -> Option<U256> {
        match self.overflowing_sub(o) {
            (r, false) => Some(r),
            _ => None,
        }
    }
    pub fn checked_mul(self, o: U256) -> Option<U256> {
        match self.overflowing_mul(o) {
            (r, false) => Some(r),
            _ => None,
        }
    }
    pub fn checked_pow(self, o: U256) -> Option<U256> {
        match self.overflowing_pow(o) {
            (r, false) => Some(r),
            _ => None,
        }
    }
    pub fn checked_div(self, o: U256) -> Option<U256> {
        if o.is_zero() {
            None
        } else {
            Some(self.div_mod(o).0)
        }
    }
    pub fn checked_rem(self, o: U256) -> Option<U256> {
        if o.is_zero() {
            None
        } else {
            Some(self.div_mod(o).1)
        }
    }
    pub fn checked_neg(self) -> Option<U256> {
        match self.overflowing_neg() {
            (r, false) => Some(r),
            _ => None,
        }
    }
    pub fn saturating_add(self, o: U256) -> U256 {
        self.checked_add(o).unwrap_or(U256::MAX)
    }
    pub fn saturating_sub(self, o: U256) -> U256 {
        self.checked_sub(o).unwrap_or_default()
    }
    pub fn saturating_mul(self, o: U256) -> U256 {
        self.checked_mul(o).unwrap_or(U256::MAX)
    }
    pub fn abs_diff(self, o: U256) -> U256 {
        if self > o {
            self - o
        } else {
            o - self
        }
    }
    pub fn integer_sqrt(&self) -> U256 {
        if *self <= U256::one() {
            return *self;
        }
        let mut x = (*self >> 1usize) + U256::one();
        let mut r = *self;
        while x < r {
            r = x;
            x = (*self / x + x) >> 1usize;
        }
        r
    }
    pub fn from_little_endian(s: &[u8]) -> Self {
        let mut v = s.to_vec();
        v.reverse();
        U256::from_big_endian(&v)
    }
}
impl std::ops::Mul for U256 {
    type Output = U256;
    fn mul(self, o: U256) -> U256 {
        self.checked_mul(o).expect("arithmetic operation overflow")
    }
}
impl std::ops::Div for U256 {
    type Output = U256;
    fn div(self, o: U256) -> U256 {
        self.div_mod(o).0
    }
}
impl std::ops::Rem for U256 {
    type Output = U256;
    fn rem(self, o: U256) -> U256 {
        self.div_mod(o).1
    }
}
macro_rules! small { ($t:ty: $($tr:ident $m:ident),*) => { $( impl std::ops::$tr<$t> for U256 { type Output = U256;
    fn $m(self, o: $t) -> U256 { std::ops::$tr::$m(self, U256::from(o)) } } )* } }
macro_rules! smalls { ($($t:ty),*) => { $( small!($t: Add add, Sub sub, Mul mul, Div div, Rem rem); )* } }
smalls!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128);
macro_rules! reft { ($($tr:ident $m:ident),*) => { $(
    impl<'a> std::ops::$tr<&'a U256> for U256 { type Output = U256; fn $m(self, o: &'a U256) -> U256 { std::ops::$tr::$m(self, *o) } }
    impl<'a> std::ops::$tr<U256> for &'a U256 { type Output = U256; fn $m(self, o: U256) -> U256 { std::ops::$tr::$m(*self, o) } }
    impl<'a, 'b> std::ops::$tr<&'b U256> for &'a U256 { type Output = U256; fn $m(self, o: &'b U256) -> U256 { std::ops::$tr::$m(*self, *o) } }
)* } }
reft!(Add add, Sub sub, Mul mul, Div div, Rem rem, BitAnd bitand, BitOr bitor, BitXor bitxor);
impl<'a, T: Into<U256>> std::ops::Shl<T> for &'a U256 {
    type Output = U256;
    fn shl(self, s: T) -> U256 {
        *self << s
    }
}
impl<'a, T: Into<U256>> std::ops::Shr<T> for &'a U256 {
    type Output = U256;
    fn shr(self, s: T) -> U256 {
        *self >> s
    }
}
impl<T: Into<U256>> std::ops::ShlAssign<T> for U256 {
    fn shl_assign(&mut self, s: T) {
        *self = *self << s
    }
}
impl<T: Into<U256>> std::ops::ShrAssign<T> for U256 {
    fn shr_assign(&mut self, s: T) {
        *self = *self >> s
    }
}
macro_rules! asg { ($($tr:ident $m:ident $op:tt),*) => { $( impl<T: Into<U256>> std::ops::$tr<T> for U256 {
    fn $m(&mut self, o: T) { *self = *self $op o.into(); } } )* } }
asg!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %,
     BitAndAssign bitand_assign &, BitOrAssign bitor_assign |, BitXorAssign bitxor_assign ^);
impl<'a> From<&'a U256> for U256 {
    fn from(v: &'a U256) -> Self {
        *v
    }
}
impl From<[u8; 32]> for U256 {
    fn from(v: [u8; 32]) -> Self {
        U256::from_big_endian(&v)
    }
}
impl From<[u64; 4]> for U256 {
    fn from(v: [u64; 4]) -> Self {
        U256(v)
    }
}
impl From<&[u8]> for U256 {
    fn from(v: &[u8]) -> Self {
        U256::from_big_endian(v)
    }
}
impl From<&'static str> for U256 {
    fn from(v: &'static str) -> Self {
        v.parse().unwrap()
    }
}
impl From<U256> for [u8; 32] {
    fn from(v: U256) -> Self {
        let mut b = [0; 32];
        v.to_big_endian(&mut b);
        b
    }
}
impl AsRef<[u64]> for U256 {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
macro_rules! try_to { ($($t:ty),*) => { $( impl TryFrom<U256> for $t {
    type Error = &'static str;
    fn try_from(v: U256) -> Result<$t, &'static str> {
        if v.0[2] != 0 || v.0[3] != 0 { return Err(concat!("integer overflow when casting to ", stringify!($t))); }
        <$t>::try_from(v.low_u128()).map_err(|_| concat!("integer overflow when casting to ", stringify!($t)))
    } } )* } }
try_to!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, i128);
impl TryFrom<U256> for u128 {
    type Error = &'static str;
    fn try_from(v: U256) -> Result<u128, &'static str> {
        if v.0[2] != 0 || v.0[3] != 0 {
            return Err("integer overflow when casting to u128");
        }
        Ok(v.low_u128())
    }
}
impl fmt::UpperHex for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&format!("{self:x}").to_uppercase())
    }
}
impl std::iter::Sum for U256 {
    fn sum<I: Iterator<Item = U256>>(it: I) -> U256 {
        it.fold(U256::zero(), |a, b| a + b)
    }
}

/// 32 bytes, as ethereum-types' H256
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct H256(pub [u8; 32]);
/// 20 bytes, as ethereum-types' H160
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct H160(pub [u8; 20]);
pub type Address = H160;
macro_rules! hash { ($t:ident $n:expr) => {
    impl $t {
        pub fn zero() -> Self { $t([0; $n]) }
        pub fn is_zero(&self) -> bool { self.0 == [0; $n] }
        pub fn as_bytes(&self) -> &[u8] { &self.0 }
        pub fn as_fixed_bytes(&self) -> &[u8; $n] { &self.0 }
        pub fn to_fixed_bytes(self) -> [u8; $n] { self.0 }
        pub fn from_slice(s: &[u8]) -> Self { let mut b = [0; $n]; b.copy_from_slice(s); $t(b) }
    }
    impl From<[u8; $n]> for $t { fn from(v: [u8; $n]) -> Self { $t(v) } }
    impl AsRef<[u8]> for $t { fn as_ref(&self) -> &[u8] { &self.0 } }
    impl fmt::LowerHex for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for b in self.0 { write!(f, "{b:02x}")?; } Ok(()) } }
    impl fmt::Debug for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "0x{self:x}") } }
} }
hash!(H256 32);
hash!(H160 20);
impl From<H160> for H256 {
    fn from(v: H160) -> Self {
        let mut b = [0; 32];
        b[12..].copy_from_slice(&v.0);
        H256(b)
    }
}
#[cfg(test)]
mod t {
    use super::U256;
    #[test]
    fn arith() {
        let m = U256::MAX;
        assert_eq!(m.div_mod(U256::from(7u8)), (m / 7u8, m % 7u8));
        assert_eq!((m / 7u8) * U256::from(7u8) + m % 7u8, m);
        assert_eq!(U256::from(3u8).overflowing_sub(U256::from(5u8)), (m - 1u8, true));
        assert_eq!(m.overflowing_mul(m), (U256::one(), true));
        assert_eq!(U256::exp10(18).to_string(), "1000000000000000000");
        assert_eq!((U256::one() << 200usize).trailing_zeros(), 200);
        assert_eq!(m.integer_sqrt(), (U256::one() << 128usize) - U256::one());
    }
}
