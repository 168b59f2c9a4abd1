//! Small exact arithmetic for the oracles: natural numbers, decimal rendering of binary floats, and the exact
//! test "is this float the correctly rounded value of that decimal".
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub struct Big(pub Vec<u32>);
impl Big {
    pub fn from(mut x: u128) -> Big {
        let mut v = vec![];
        while x > 0 {
            v.push(x as u32);
            x >>= 32;
        }
        Big(v)
    }
    pub fn mul(&mut self, k: u32) {
        let mut c = 0u64;
        for d in self.0.iter_mut() {
            c += *d as u64 * k as u64;
            *d = c as u32;
            c >>= 32;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
        if k == 0 {
            self.0.clear();
        }
    }
    pub fn add(&mut self, k: u32) {
        let mut c = k as u64;
        for d in self.0.iter_mut() {
            c += *d as u64;
            *d = c as u32;
            c >>= 32;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    pub fn pow10(&mut self, n: u32) {
        for _ in 0..n / 9 {
            self.mul(1_000_000_000);
        }
        for _ in 0..n % 9 {
            self.mul(10);
        }
    }
    pub fn shl(&mut self, n: u32) {
        if self.0.is_empty() {
            return;
        }
        self.mul(1 << (n % 31));
        // shift by whole words for the multiples of 32, the rest by multiplications
        let mut r = n - n % 31;
        while r > 0 {
            if r >= 32 {
                self.0.insert(0, 0);
                r -= 32;
            } else {
                self.mul(1 << (r.min(31)));
                r -= r.min(31);
            }
        }
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn parse(digits: &[u8]) -> Big {
        let mut b = Big(vec![]);
        for d in digits {
            b.mul(10);
            b.add((*d - b'0') as u32);
        }
        b
    }
    pub fn decimal(&self) -> Vec<u8> {
        let mut v = self.0.clone();
        let mut out = vec![];
        while !v.is_empty() {
            let mut r = 0u64;
            for d in v.iter_mut().rev() {
                let x = (r << 32) | *d as u64;
                *d = (x / 1_000_000_000) as u32;
                r = x % 1_000_000_000;
            }
            while v.last() == Some(&0) {
                v.pop();
            }
            for _ in 0..9 {
                out.push(b'0' + (r % 10) as u8);
                r /= 10;
            }
        }
        while out.last() == Some(&b'0') {
            out.pop();
        }
        out.reverse();
        out
    }
}
/// compares d * 10^k with a * 2^q
pub fn cmp_dec_bin(d: &Big, k: i64, a: u64, q: i64) -> Ordering {
    let mut l = d.clone();
    let mut r = Big::from(a as u128);
    if k >= 0 {
        l.pow10(k as u32)
    } else {
        r.pow10(-k as u32)
    }
    if q >= 0 {
        r.shl(q as u32)
    } else {
        l.shl(-q as u32)
    }
    l.cmp(&r)
}
/// a binary floating point format
#[derive(Clone, Copy)]
pub struct Fmt {
    pub p: u32,
    pub emin: i64,
    pub maxbits: u64,
}
pub const F64: Fmt = Fmt { p: 53, emin: -1074, maxbits: 0x7ff0_0000_0000_0000 };
pub const F32: Fmt = Fmt { p: 24, emin: -149, maxbits: 0x7f80_0000 };
impl Fmt {
    /// mantissa and exponent of the non-negative finite value with these bits
    pub fn split(self, bits: u64) -> (u64, i64) {
        let f = self.p - 1;
        let e = bits >> f;
        let m = bits & ((1 << f) - 1);
        if e == 0 {
            (m, self.emin)
        } else {
            (m | 1 << f, self.emin + e as i64 - 1)
        }
    }
    /// whether the non-negative float `bits` (infinity included) is d * 10^k rounded to nearest, ties to even
    pub fn is_nearest(self, bits: u64, d: &Big, k: i64) -> bool {
        if bits > self.maxbits {
            return false;
        }
        if d.0.is_empty() {
            return bits == 0;
        }
        let even = bits % 2 == 0;
        // at least the midpoint to the predecessor
        if bits > 0 {
            let (pm, pe) = self.split(bits - 1);
            let c = cmp_dec_bin(d, k, 2 * pm + 1, pe - 1);
            if c == Ordering::Less || c == Ordering::Equal && !even {
                return false;
            }
        }
        if bits < self.maxbits {
            let (m, e) = self.split(bits);
            let c = cmp_dec_bin(d, k, 2 * m + 1, e - 1);
            if c == Ordering::Greater || c == Ordering::Equal && !even {
                return false;
            }
        }
        true
    }
}
/// exact decimal digits of m * 2^e, e >= 0
pub fn digits_of(m: u64, e: i64) -> Vec<u8> {
    let mut b = Big::from(m as u128);
    b.shl(e as u32);
    b.decimal()
}
