//! Stand-in for `keccak-hash` (not available offline).
fn f1600(a: &mut [u64; 25]) {
    const R: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
    const P: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
    let mut lfsr = 1u8;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut t = a[1];
        for i in 0..24 {
            let b = a[P[i]];
            a[P[i]] = t.rotate_left(R[i]);
            t = b;
        }
        for y in 0..5 {
            let r = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        let mut rc = 0u64;
        for j in 0..7 {
            if lfsr & 1 == 1 {
                rc |= 1u64 << ((1u32 << j) - 1);
            }
            lfsr = if lfsr & 0x80 != 0 { (lfsr << 1) ^ 0x71 } else { lfsr << 1 };
        }
        a[0] ^= rc;
    }
}
pub fn digest(data: &[u8]) -> [u8; 32] {
    let mut a = [0u64; 25];
    let mut m = data.to_vec();
    m.push(1);
    while m.len() % 136 != 0 {
        m.push(0);
    }
    let l = m.len();
    m[l - 1] |= 0x80;
    for blk in m.chunks(136) {
        for i in 0..17 {
            a[i] ^= u64::from_le_bytes(blk[i * 8..i * 8 + 8].try_into().unwrap());
        }
        f1600(&mut a);
    }
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[i * 8..i * 8 + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    o
}
/// Hashes the buffer in place: the digest replaces its first 32 bytes.
pub fn keccak256(data: &mut [u8]) {
    let d = digest(data);
    data[..32].copy_from_slice(&d);
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct H256(pub [u8; 32]);
impl H256 {
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for H256 {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
pub fn keccak<T: AsRef<[u8]>>(s: T) -> H256 {
    H256(digest(s.as_ref()))
}
#[cfg(test)]
mod tests {
    #[test]
    fn known() {
        let h: String = super::digest(b"transfer(address,uint256)").iter().map(|b| format!("{b:02x}")).collect();
        assert!(h.starts_with("a9059cbb"));
    }
}
