//! 256-bit binary floating point, enough of it to check elementary functions to well below an ulp.
use std::cmp::Ordering;
use std::sync::OnceLock;

/// value = (-1)^neg * 0.m * 2^e with the top bit of m set (m is 4 words, least significant first); m = 0 is zero
#[derive(Clone, Copy, Debug)]
pub struct Bf {
    pub neg: bool,
    pub m: [u64; 4],
    pub e: i64,
}
pub const ZERO: Bf = Bf { neg: false, m: [0; 4], e: 0 };
impl Bf {
    pub fn is_zero(&self) -> bool {
        self.m[3] == 0
    }
    /// from an 8-word mantissa (most significant word last) scaled so that value = 0.w * 2^e
    fn norm(neg: bool, w: &[u64], e: i64) -> Bf {
        let n = w.len();
        let Some(top) = (0..n).rev().find(|i| w[*i] != 0) else { return ZERO };
        let sh = w[top].leading_zeros();
        let mut m = [0u64; 4];
        for k in 0..4 {
            let hi = if top >= k { w[top - k] } else { 0 };
            let lo = if top >= k + 1 { w[top - k - 1] } else { 0 };
            m[3 - k] = if sh == 0 { hi } else { hi << sh | lo >> (64 - sh) };
        }
        Bf { neg, m, e: e - 64 * (n - 1 - top) as i64 - sh as i64 }
    }
    pub fn int(x: i64) -> Bf {
        Bf::norm(x < 0, &[x.unsigned_abs()], 64)
    }
    pub fn f64(x: f64) -> Bf {
        let b = x.to_bits();
        let (m, e) = crate::big::F64.split(b & !(1 << 63));
        Bf::norm(b >> 63 == 1, &[m], 64 + e)
    }
    pub fn to_f64(&self) -> f64 {
        if self.is_zero() {
            return 0.0;
        }
        let x = self.m[3] as f64 * 2f64.powi(-64);
        let x = if self.e > 1000 { x * 2f64.powi(1000) * 2f64.powi((self.e - 1000).min(100) as i32) } else if self.e < -1000 { x * 2f64.powi(-1000) * 2f64.powi((self.e + 1000).max(-1000) as i32) } else { x * 2f64.powi(self.e as i32) };
        if self.neg {
            -x
        } else {
            x
        }
    }
    pub fn neg(mut self) -> Bf {
        self.neg = !self.neg && !self.is_zero();
        self
    }
    pub fn abs(mut self) -> Bf {
        self.neg = false;
        self
    }
    /// * 2^k
    pub fn shl(mut self, k: i64) -> Bf {
        self.e += k;
        self
    }
    pub fn mul(&self, o: &Bf) -> Bf {
        if self.is_zero() || o.is_zero() {
            return ZERO;
        }
        let mut w = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += self.m[i] as u128 * o.m[j] as u128 + w[i + j] as u128;
                w[i + j] = c as u64;
                c >>= 64;
            }
            w[i + 4] = c as u64;
        }
        Bf::norm(self.neg != o.neg, &w, self.e + o.e)
    }
    pub fn div_int(&self, d: u64) -> Bf {
        let mut w = [0u64; 6];
        let mut r = 0u128;
        for k in (0..6).rev() {
            let x = (r << 64) | if k >= 2 { self.m[k - 2] } else { 0 } as u128;
            w[k] = (x / d as u128) as u64;
            r = x % d as u128;
        }
        Bf::norm(self.neg, &w, self.e)
    }
    pub fn cmp_abs(&self, o: &Bf) -> Ordering {
        match (self.is_zero(), o.is_zero()) {
            (true, true) => Ordering::Equal,
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => self.e.cmp(&o.e).then_with(|| self.m.iter().rev().cmp(o.m.iter().rev())),
        }
    }
    pub fn add(&self, o: &Bf) -> Bf {
        if self.is_zero() {
            return *o;
        }
        if o.is_zero() {
            return *self;
        }
        let (a, b) = if self.cmp_abs(o) == Ordering::Less { (o, self) } else { (self, o) };
        let d = a.e - b.e;
        if d > 300 {
            return *a;
        }
        // 6 words: two below for the shifted-out part, and a carry on top
        let mut x = [0u64; 7];
        x[2..6].copy_from_slice(&a.m);
        let mut y = [0u64; 7];
        let (ws, bs) = ((d / 64) as usize, (d % 64) as u32);
        for k in 0..4 {
            let at = k + 2;
            if at >= ws {
                y[at - ws] |= b.m[k] >> bs;
            }
            if bs > 0 && at >= ws + 1 {
                y[at - ws - 1] |= b.m[k] << (64 - bs);
            }
        }
        if a.neg == b.neg {
            let mut c = 0u128;
            for k in 0..7 {
                c += x[k] as u128 + y[k] as u128;
                x[k] = c as u64;
                c >>= 64;
            }
        } else {
            let mut br = false;
            for k in 0..7 {
                let (r, b1) = x[k].overflowing_sub(y[k]);
                let (r, b2) = r.overflowing_sub(br as u64);
                x[k] = r;
                br = b1 || b2;
            }
        }
        Bf::norm(a.neg, &x, a.e + 64)
    }
    pub fn sub(&self, o: &Bf) -> Bf {
        self.add(&o.neg())
    }
    pub fn lt(&self, o: &Bf) -> bool {
        let d = self.sub(o);
        d.neg
    }
    /// |self| <= |o|
    pub fn within(&self, o: &Bf) -> bool {
        self.cmp_abs(o) != Ordering::Greater
    }
}
/// sum of +-x^(2k+1)/(2k+1) for x = 1/n
fn atan_inv(n: u64, alt: bool) -> Bf {
    let mut p = Bf::int(1).div_int(n);
    let mut s = p;
    let mut k = 1;
    loop {
        p = p.div_int(n * n);
        let t = p.div_int(2 * k + 1);
        if t.is_zero() || t.e < s.e - 270 {
            return s;
        }
        s = if alt && k % 2 == 1 { s.sub(&t) } else { s.add(&t) };
        k += 1;
    }
}
pub fn pi() -> Bf {
    static P: OnceLock<Bf> = OnceLock::new();
    *P.get_or_init(|| atan_inv(5, true).shl(4).sub(&atan_inv(239, true).shl(2)))
}
pub fn ln2() -> Bf {
    static P: OnceLock<Bf> = OnceLock::new();
    *P.get_or_init(|| atan_inv(3, false).shl(1))
}
pub fn ln10() -> Bf {
    static P: OnceLock<Bf> = OnceLock::new();
    *P.get_or_init(|| ln2().mul(&Bf::int(3)).add(&atan_inv(9, false).shl(1)))
}
/// e^x, |x| < 2^40
pub fn exp(x: &Bf) -> Bf {
    let k = (x.to_f64() / std::f64::consts::LN_2).round();
    let r = x.sub(&ln2().mul(&Bf::f64(k)));
    let r = r.shl(-10);
    let mut t = Bf::int(1);
    let mut s = t;
    let mut n = 1;
    loop {
        t = t.mul(&r).div_int(n);
        if t.is_zero() || t.e < -270 {
            break;
        }
        s = s.add(&t);
        n += 1;
    }
    for _ in 0..10 {
        s = s.mul(&s);
    }
    s.shl(k as i64)
}
/// natural logarithm of x > 0, to about 200 bits
pub fn ln(x: &Bf) -> Bf {
    // 0.5 <= m < 1 times 2^e
    let m = Bf { neg: false, m: x.m, e: 0 };
    let mut l = Bf::f64(m.to_f64().ln());
    for _ in 0..2 {
        // l + 2 (m - e^l) / (m + e^l); with m/e^l - 1 = d tiny: l + d - d^2/2 + d^3/3
        let d = m.mul(&exp(&l.neg())).sub(&Bf::int(1));
        let d2 = d.mul(&d);
        l = l.add(&d).sub(&d2.shl(-1)).add(&d2.mul(&d).div_int(3));
    }
    l.add(&ln2().mul(&Bf::int(x.e)))
}
/// 2^(64 N) * 2 pi, as words, for the reduction of large arguments
const N: usize = 22;
fn two_pi() -> &'static Vec<u64> {
    static P: OnceLock<Vec<u64>> = OnceLock::new();
    P.get_or_init(|| {
        // Machin in fixed point with N + 1 fraction words
        let at = |n: u64| {
            let mut p = vec![0u64; N + 2];
            p[N + 1] = 1;
            div(&mut p, n);
            let mut s = p.clone();
            let mut k = 1;
            loop {
                div(&mut p, n * n);
                let mut t = p.clone();
                div(&mut t, 2 * k + 1);
                if t.iter().all(|x| *x == 0) {
                    return s;
                }
                if k % 2 == 1 {
                    subv(&mut s, &t)
                } else {
                    addv(&mut s, &t)
                }
                k += 1;
            }
        };
        let mut a = at(5);
        mulv(&mut a, 32);
        let mut b = at(239);
        mulv(&mut b, 8);
        subv(&mut a, &b);
        a.remove(0);
        a
    })
}
fn div(v: &mut [u64], d: u64) {
    let mut r = 0u128;
    for x in v.iter_mut().rev() {
        let y = (r << 64) | *x as u128;
        *x = (y / d as u128) as u64;
        r = y % d as u128;
    }
}
fn addv(a: &mut [u64], b: &[u64]) {
    let mut c = 0u128;
    for k in 0..a.len() {
        c += a[k] as u128 + b[k] as u128;
        a[k] = c as u64;
        c >>= 64;
    }
}
fn subv(a: &mut [u64], b: &[u64]) {
    let mut br = false;
    for k in 0..a.len() {
        let (r, b1) = a[k].overflowing_sub(b[k]);
        let (r, b2) = r.overflowing_sub(br as u64);
        a[k] = r;
        br = b1 || b2;
    }
}
fn mulv(a: &mut [u64], k: u64) {
    let mut c = 0u128;
    for x in a.iter_mut() {
        c += *x as u128 * k as u128;
        *x = c as u64;
        c >>= 64;
    }
}
fn ge(a: &[u64], b: &[u64]) -> bool {
    a.iter().rev().cmp(b.iter().rev()) != Ordering::Less
}
/// sine and cosine of any finite x
pub fn sincos(x: f64) -> (Bf, Bf) {
    let b = Bf::f64(x);
    if b.is_zero() {
        return (ZERO, Bf::int(1));
    }
    let r = if b.e <= 40 {
        let k = (x / (2.0 * std::f64::consts::PI)).round();
        b.sub(&pi().shl(1).mul(&Bf::f64(k)))
    } else {
        // |x| = m * 2^e; bring m mod 2pi and double e times
        let (mut m, mut e) = crate::big::F64.split(x.to_bits() & !(1 << 63));
        while e < 0 && m % 2 == 0 {
            m /= 2;
            e += 1;
        }
        let p = two_pi();
        let mut v = vec![0u64; N + 1];
        // m < 2^53 as bits from the top, so that the accumulator stays below 2 pi
        let bits = 64 - m.leading_zeros();
        let one = {
            let mut o = vec![0u64; N + 1];
            o[N] = 1;
            o
        };
        let total = bits as i64 + e;
        for k in 0..total {
            let mut c = 0;
            for w in v.iter_mut() {
                let n = *w >> 63;
                *w = *w << 1 | c;
                c = n;
            }
            if k < bits as i64 && m >> (bits as i64 - 1 - k) & 1 == 1 {
                addv(&mut v, &one);
            }
            while ge(&v, p) {
                subv(&mut v, p);
            }
        }
        // fraction bits of m when e < 0
        let mut r = Bf::norm(false, &v, 64);
        if e < 0 {
            let frac = m & ((1u64 << -e) - 1);
            r = r.add(&Bf::norm(false, &[frac], 64 + e));
        }
        if x < 0.0 {
            r = r.neg();
        }
        r
    };
    sincos_small(&r)
}
/// for |r| < 8
pub fn sincos_small(r: &Bf) -> (Bf, Bf) {
    // reduce by 2^-6 and double the angle six times; keep 1 - cos for accuracy
    let z = r.shl(-6);
    let z2 = z.mul(&z);
    let (mut s, mut t, mut n) = (z, z, 1u64);
    loop {
        t = t.mul(&z2).div_int((n + 1) * (n + 2)).neg();
        if t.is_zero() || t.e < z.e - 270 {
            break;
        }
        s = s.add(&t);
        n += 2;
    }
    // v = 1 - cos
    let (mut v, mut t, mut n) = (z2.shl(-1), z2.shl(-1), 2u64);
    loop {
        t = t.mul(&z2).div_int((n + 1) * (n + 2)).neg();
        if t.is_zero() || t.e < z2.e - 270 {
            break;
        }
        v = v.add(&t);
        n += 2;
    }
    for _ in 0..6 {
        // sin 2a = 2 s (1 - v); 1 - cos 2a = 2 s^2
        let ns = s.mul(&Bf::int(1).sub(&v)).shl(1);
        v = s.mul(&s).shl(1);
        s = ns;
    }
    (s, Bf::int(1).sub(&v))
}
