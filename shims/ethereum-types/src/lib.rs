//! Stand-in for the part of `ethereum-types` the compiler uses (the crate is not available offline).
use std::fmt;
use std::ops::*;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct U256(pub [u64; 4]);
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum FromStrRadixErr {
    InvalidCharacter,
    InvalidLength,
    UnsupportedRadix,
}
impl fmt::Display for FromStrRadixErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for FromStrRadixErr {}
pub type FromDecStrErr = FromStrRadixErr;
pub type FromHexError = FromStrRadixErr;
impl U256 {
    pub const MAX: U256 = U256([u64::MAX; 4]);
    pub const fn zero() -> Self {
        U256([0; 4])
    }
    pub const fn one() -> Self {
        U256([1, 0, 0, 0])
    }
    pub const fn max_value() -> Self {
        Self::MAX
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn from_str_radix(t: &str, radix: u32) -> Result<Self, FromStrRadixErr> {
        match radix {
            10 => Self::from_dec_str(t),
            16 => {
                let s = t.strip_prefix("0x").unwrap_or(t);
                if s.len() > 64 && s.trim_start_matches('0').len() > 64 {
                    return Err(FromStrRadixErr::InvalidLength);
                }
                let mut r = U256::zero();
                for c in s.chars() {
                    let d = c.to_digit(16).ok_or(FromStrRadixErr::InvalidCharacter)?;
                    r = (r << 4) | U256::from(d);
                }
                Ok(r)
            }
            _ => Err(FromStrRadixErr::UnsupportedRadix),
        }
    }
    pub fn from_dec_str(t: &str) -> Result<Self, FromStrRadixErr> {
        if t.is_empty() {
            return Err(FromStrRadixErr::InvalidCharacter);
        }
        let mut r = U256::zero();
        for c in t.chars() {
            let d = c.to_digit(10).ok_or(FromStrRadixErr::InvalidCharacter)?;
            r = r.checked_mul(U256::from(10u32)).and_then(|x| x.checked_add(U256::from(d))).ok_or(FromStrRadixErr::InvalidLength)?;
        }
        Ok(r)
    }
    pub fn to_big_endian(&self, b: &mut [u8]) {
        for i in 0..4 {
            b[i * 8..i * 8 + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
    }
    pub fn to_little_endian(&self, b: &mut [u8]) {
        for i in 0..4 {
            b[i * 8..i * 8 + 8].copy_from_slice(&self.0[i].to_le_bytes());
        }
    }
    pub fn from_big_endian(b: &[u8]) -> Self {
        let mut r = U256::zero();
        for x in b {
            r = (r << 8) | U256::from(*x as u32);
        }
        r
    }
    pub fn from_little_endian(b: &[u8]) -> Self {
        let v: Vec<u8> = b.iter().rev().cloned().collect();
        Self::from_big_endian(&v)
    }
    pub fn low_u32(&self) -> u32 {
        self.0[0] as u32
    }
    pub fn low_u64(&self) -> u64 {
        self.0[0]
    }
    pub fn as_u64(&self) -> u64 {
        if self.0[1] != 0 || self.0[2] != 0 || self.0[3] != 0 {
            panic!("Integer overflow when casting to u64")
        }
        self.0[0]
    }
    pub fn as_u32(&self) -> u32 {
        let v = self.as_u64();
        if v > u32::MAX as u64 {
            panic!("Integer overflow when casting to u32")
        }
        v as u32
    }
    pub fn as_usize(&self) -> usize {
        self.as_u64() as usize
    }
    pub fn bits(&self) -> usize {
        for i in (0..4).rev() {
            if self.0[i] != 0 {
                return i * 64 + 64 - self.0[i].leading_zeros() as usize;
            }
        }
        0
    }
    pub fn bit(&self, i: usize) -> bool {
        i < 256 && (self.0[i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn byte(&self, i: usize) -> u8 {
        (self.0[i / 8] >> ((i % 8) * 8)) as u8
    }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) {
        let mut r = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            let s = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = s as u64;
            c = s >> 64;
        }
        (U256(r), c != 0)
    }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
        (self.overflowing_add(!o).0.overflowing_add(U256::one()).0, self < o)
    }
    pub fn overflowing_mul(self, o: Self) -> (Self, bool) {
        let mut r = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let s = r[i + j] as u128 + self.0[i] as u128 * o.0[j] as u128 + c;
                r[i + j] = s as u64;
                c = s >> 64;
            }
            r[i + 4] = c as u64;
        }
        (U256([r[0], r[1], r[2], r[3]]), r[4..].iter().any(|x| *x != 0))
    }
    pub fn checked_add(self, o: Self) -> Option<Self> {
        let (r, f) = self.overflowing_add(o);
        if f { None } else { Some(r) }
    }
    pub fn checked_sub(self, o: Self) -> Option<Self> {
        let (r, f) = self.overflowing_sub(o);
        if f { None } else { Some(r) }
    }
    pub fn checked_mul(self, o: Self) -> Option<Self> {
        let (r, f) = self.overflowing_mul(o);
        if f { None } else { Some(r) }
    }
    pub fn div_mod(self, o: Self) -> (Self, Self) {
        if o.is_zero() {
            panic!("division by zero")
        }
        let mut q = U256::zero();
        let mut r = U256::zero();
        for i in (0..256).rev() {
            let top = r.bit(255);
            r = r << 1;
            if self.bit(i) {
                r.0[0] |= 1;
            }
            if top || r >= o {
                r = r.overflowing_sub(o).0;
                q.0[i / 64] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
    pub fn pow(self, e: Self) -> Self {
        let mut r = U256::one();
        for i in (0..e.bits()).rev() {
            r = r.overflowing_mul(r).0;
            if e.bit(i) {
                r = r.overflowing_mul(self).0;
            }
        }
        r
    }
}
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        for i in (0..4).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        std::cmp::Ordering::Equal
    }
}
macro_rules! fromu { ($($t:ty),*) => { $(impl From<$t> for U256 { fn from(v: $t) -> Self { U256([v as u64, 0, 0, 0]) } })* } }
fromu!(u8, u16, u32, u64, usize, bool);
macro_rules! fromi { ($($t:ty),*) => { $(impl From<$t> for U256 { fn from(v: $t) -> Self { if v < 0 { panic!("Unsigned integer can't be created from negative value") } U256([v as u64, 0, 0, 0]) } })* } }
fromi!(i8, i16, i32, i64, isize);
impl From<u128> for U256 {
    fn from(v: u128) -> Self {
        U256([v as u64, (v >> 64) as u64, 0, 0])
    }
}
impl From<[u8; 32]> for U256 {
    fn from(v: [u8; 32]) -> Self {
        Self::from_big_endian(&v)
    }
}
impl From<&[u8]> for U256 {
    fn from(v: &[u8]) -> Self {
        Self::from_big_endian(v)
    }
}
impl std::str::FromStr for U256 {
    type Err = FromStrRadixErr;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Self::from_str_radix(s, 16)
    }
}
impl TryFrom<U256> for u64 {
    type Error = &'static str;
    fn try_from(v: U256) -> Result<u64, Self::Error> {
        if v.0[1..] != [0; 3] { Err("integer overflow when casting to u64") } else { Ok(v.0[0]) }
    }
}
impl TryFrom<U256> for u32 {
    type Error = &'static str;
    fn try_from(v: U256) -> Result<u32, Self::Error> {
        if v.0[1..] != [0; 3] || v.0[0] > u32::MAX as u64 { Err("integer overflow when casting to u32") } else { Ok(v.0[0] as u32) }
    }
}
macro_rules! shift { ($($t:ty),*) => { $(
    impl Shl<$t> for U256 { type Output = U256; fn shl(self, n: $t) -> U256 {
        let n = n as usize; if n >= 256 { return U256::zero(); }
        let (w, b) = (n / 64, n % 64); let mut r = [0u64; 4];
        for i in w..4 { r[i] = self.0[i - w] << b; if b > 0 && i > w { r[i] |= self.0[i - w - 1] >> (64 - b); } }
        U256(r) } }
    impl Shr<$t> for U256 { type Output = U256; fn shr(self, n: $t) -> U256 {
        let n = n as usize; if n >= 256 { return U256::zero(); }
        let (w, b) = (n / 64, n % 64); let mut r = [0u64; 4];
        for i in w..4 { r[i - w] = self.0[i] >> b; if b > 0 && i < 3 { r[i - w] |= self.0[i + 1] << (64 - b); } }
        U256(r) } }
)* } }
shift!(u8, u16, u32, u64, usize, i32);
impl Add for U256 { type Output = U256; fn add(self, o: U256) -> U256 { self.checked_add(o).expect("arithmetic operation overflow") } }
impl Sub for U256 { type Output = U256; fn sub(self, o: U256) -> U256 { self.checked_sub(o).expect("arithmetic operation overflow") } }
impl Mul for U256 { type Output = U256; fn mul(self, o: U256) -> U256 { self.checked_mul(o).expect("arithmetic operation overflow") } }
impl Div for U256 { type Output = U256; fn div(self, o: U256) -> U256 { self.div_mod(o).0 } }
impl Rem for U256 { type Output = U256; fn rem(self, o: U256) -> U256 { self.div_mod(o).1 } }
impl Not for U256 { type Output = U256; fn not(self) -> U256 { U256([!self.0[0], !self.0[1], !self.0[2], !self.0[3]]) } }
impl BitAnd for U256 { type Output = U256; fn bitand(self, o: U256) -> U256 { U256([self.0[0] & o.0[0], self.0[1] & o.0[1], self.0[2] & o.0[2], self.0[3] & o.0[3]]) } }
impl BitOr for U256 { type Output = U256; fn bitor(self, o: U256) -> U256 { U256([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]]) } }
impl BitXor for U256 { type Output = U256; fn bitxor(self, o: U256) -> U256 { U256([self.0[0] ^ o.0[0], self.0[1] ^ o.0[1], self.0[2] ^ o.0[2], self.0[3] ^ o.0[3]]) } }
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.is_zero() {
            return f.write_str("0");
        }
        let mut s = vec![];
        let mut v = *self;
        while !v.is_zero() {
            let (q, r) = v.div_mod(U256::from(10u32));
            s.push(b'0' + r.0[0] as u8);
            v = q;
        }
        s.reverse();
        f.write_str(std::str::from_utf8(&s).unwrap())
    }
}
impl fmt::Debug for U256 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::LowerHex for U256 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut b = [0u8; 32];
        self.to_big_endian(&mut b);
        let s: String = b.iter().map(|x| format!("{x:02x}")).collect();
        let t = s.trim_start_matches('0');
        if f.alternate() {
            f.write_str("0x")?;
        }
        f.write_str(if t.is_empty() { "0" } else { t })
    }
}
macro_rules! hash { ($n:ident, $l:expr) => {
    #[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
    pub struct $n(pub [u8; $l]);
    impl Default for $n { fn default() -> Self { $n([0; $l]) } }
    impl $n {
        pub fn zero() -> Self { $n([0; $l]) }
        pub fn as_bytes(&self) -> &[u8] { &self.0 }
        pub fn from_slice(s: &[u8]) -> Self { let mut b = [0; $l]; b.copy_from_slice(s); $n(b) }
        pub fn to_fixed_bytes(self) -> [u8; $l] { self.0 }
    }
    impl AsRef<[u8]> for $n { fn as_ref(&self) -> &[u8] { &self.0 } }
    impl From<[u8; $l]> for $n { fn from(b: [u8; $l]) -> Self { $n(b) } }
} }
hash!(H160, 20);
hash!(H256, 32);
pub type Address = H160;
