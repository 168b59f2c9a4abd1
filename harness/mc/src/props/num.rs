//! C25 selectors, C27 numeric functions
use crate::bf::{self, Bf};
use crate::core::*;
use crate::ffi;
use crate::*;
use std::cmp::Ordering;
use std::rc::Rc;

// ================================================================ C25
/// an elementary type of the selectors
trait El: Copy + 'static {
    const BITS: u32;
    fn from_bits(b: u64) -> Self;
    fn show(self) -> String;
    fn nan(self) -> bool {
        false
    }
    /// order of the data type; None when unordered
    fn ord(self, o: Self) -> Option<Ordering>;
}
macro_rules! el_int { ($($t:ty : $u:ty),*) => { $(impl El for $t {
    const BITS: u32 = <$t>::BITS;
    fn from_bits(b: u64) -> Self { b as $u as $t }
    fn show(self) -> String { self.to_string() }
    fn ord(self, o: Self) -> Option<Ordering> { Some((self as i128).cmp(&(o as i128))) }
})* } }
el_int!(u8: u8, u16: u16, u32: u32, u64: u64, i8: u8, i16: u16, i32: u32, i64: u64);
macro_rules! el_f { ($($t:ty : $u:ty),*) => { $(impl El for $t {
    const BITS: u32 = <$u>::BITS;
    fn from_bits(b: u64) -> Self { <$t>::from_bits(b as $u) }
    fn show(self) -> String { format!("{:?}", self) }
    fn nan(self) -> bool { self.to_bits() << 1 >> 1 > <$t>::INFINITY.to_bits() }
    fn ord(self, o: Self) -> Option<Ordering> {
        if self.nan() || o.nan() { return None }
        // sign-magnitude order of the bits, both zeros equal
        let k = |x: $t| { let b = x.to_bits(); let m = (b << 1 >> 1) as i128; if b != m as $u { -m } else { m } };
        Some(k(self).cmp(&k(o)))
    }
})* } }
el_f!(f32: u32, f64: u64);

type Fold<T> = unsafe extern "C-unwind" fn(u32, *const T) -> T;
type Limit<T> = unsafe extern "C-unwind" fn(T, T, T) -> T;

fn same<T: El>(a: T, b: T) -> bool {
    a.nan() && b.nan() || a.ord(b) == Some(Ordering::Equal)
}
/// the largest (smallest) element, not-a-numbers ignored
fn extreme<T: El>(v: &[T], max: bool) -> T {
    let mut best: Option<T> = None;
    for &x in v {
        if x.nan() {
            continue;
        }
        let better = match best {
            None => true,
            Some(b) => x.ord(b) == Some(if max { Ordering::Greater } else { Ordering::Less }),
        };
        if better {
            best = Some(x)
        }
    }
    best.unwrap_or(v[0])
}
fn list<T: El>(v: &[T]) -> String {
    if v.len() <= 8 {
        v.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")
    } else {
        format!("{} arguments: {}, {}, ..., {}", v.len(), v[0].show(), v[1].show(), v[v.len() - 1].show())
    }
}
/// puts the list so that it ends at an inaccessible page and checks both folds
fn folds<T: El>(ty: &str, mx: Fold<T>, mn: Fold<T>, g: &Guard, v: &[T], cx: &mut Ctx) -> R {
    let sz = std::mem::size_of::<T>();
    let p = g.tail(v.len() * sz) as *mut T;
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len()) };
    for (nm, f, max) in [("MAX", mx, true), ("MIN", mn, false)] {
        cx.describe(|| format!("{nm}__{ty}({})", list(v)));
        cx.case(v.len() > 1);
        let want = extreme(v, max);
        match tri(|| unsafe { f(v.len() as u32, p) }) {
            Some(r) => ensure!(same(r, want), format!("{nm}__{ty}"), "{nm}__{ty}({}) = {}, expected {}", list(v), r.show(), want.show()),
            None => bail!(format!("{nm}__{ty}"), "{nm}__{ty}({}) aborts", list(v)),
        }
    }
    Ok(())
}
fn limit1<T: El>(ty: &str, f: Limit<T>, a: T, x: T, b: T, cx: &mut Ctx) -> R {
    let want = if x.ord(a) == Some(Ordering::Less) {
        a
    } else if x.ord(b) == Some(Ordering::Greater) {
        b
    } else {
        x
    };
    cx.case(true);
    cx.describe(|| format!("LIMIT__{ty}({}, {}, {})", a.show(), x.show(), b.show()));
    match tri(|| unsafe { f(a, x, b) }) {
        Some(r) => ensure!(same(r, want), format!("LIMIT__{ty}"), "LIMIT__{ty}({}, {}, {}) = {}, expected {}", a.show(), x.show(), b.show(), r.show(), want.show()),
        None => bail!(format!("LIMIT__{ty}"), "LIMIT__{ty}({}, {}, {}) aborts", a.show(), x.show(), b.show()),
    }
    Ok(())
}
/// representative bit patterns, `wide`: the larger set
fn elems<T: El>(ty: &str, wide: bool) -> Vec<T> {
    if ty == "BOOL" {
        return vec![T::from_bits(0), T::from_bits(1)];
    }
    let b = T::BITS;
    let m = if b == 64 { u64::MAX } else { (1 << b) - 1 };
    let top = 1u64 << (b - 1);
    let mut v: Vec<u64> = vec![];
    if ty == "REAL" || ty == "LREAL" {
        let f = if b == 32 { 23 } else { 52 };
        let one = if b == 32 { 0x3f80_0000u64 } else { 0x3ff0_0000_0000_0000 };
        let inf = (m >> 1) >> f << f;
        v.extend([0, 1, one, one + 1, inf - 1, inf, one | top, (one + 1) | top, top, top | 1, (inf - 1) | top, inf | top, inf | 1 << (f - 1)]);
        if wide {
            v.extend([inf | 1, m, 2, one - 1, 1 << f, (1 << f) - 1, one + (1 << f), one + (1 << (f - 1)), 2 | top, (one - 1) | top, 1 << f | top, (one + (1 << f)) | top, one + (1 << (f / 2)), inf - (1 << f)]);
            for e in (1..(inf >> f)).step_by(if b == 32 { 13 } else { 97 }) {
                v.push(e << f | 5);
                v.push(e << f | 5 | top);
            }
        }
    } else {
        v.extend([0, 1, 2, m, m - 1, top, top - 1, top + 1, top | top >> 1, 10 & m]);
        if b > 8 {
            // ordered differently when only a part of the bits is looked at
            v.extend([0xff, 0x100, 0x101, 1 << (b / 2), (1 << (b / 2)) - 1, (1 << (b / 2)) + 1, 1 << (b / 2 - 1), top >> 1]);
        }
        if wide {
            for k in 0..b {
                v.extend([1 << k, (1u64 << k) - 1, (m ^ (1 << k)) & m, (1 << k) + 1]);
            }
        }
    }
    v.sort();
    v.dedup();
    v.iter().map(|x| T::from_bits(*x)).collect()
}

fn sel_spaces<T: El>(ty: &'static str, mx: Fold<T>, mn: Fold<T>, lim: Limit<T>, t: Tier, v: &mut Vec<Space>) {
    let sz = std::mem::size_of::<T>();
    let g = Rc::new(Guard::new(70000 * sz));
    let deep = thorough(t);
    // no list, empty list
    v.push(space(format!("missing {ty}"), 4 * 3, move |mut i, cx| {
        let one = elems::<T>(ty, false)[0];
        let (max, null, n) = (dig(&mut i, 2) == 0, dig(&mut i, 2) == 0, i as u32);
        let n = if null { n } else { 0 };
        let p = if null { std::ptr::null() } else { &one as *const T };
        let what = format!("{}__{ty} of {n} elements{}", if max { "MAX" } else { "MIN" }, if null { " at a null pointer" } else { "" });
        cx.case(true);
        cx.describe(|| what.clone());
        cx.sample(|| what.clone());
        let r = tri(|| unsafe { if max { mx(n, p) } else { mn(n, p) } });
        ensure!(r.is_none(), format!("{}__{ty}", if max { "MAX" } else { "MIN" }), "{what} does not abort");
        Ok(())
    }));
    // all short lists
    {
        let g = g.clone();
        let e: Vec<T> = elems(ty, false);
        let n = e.len() as u64;
        let depth = if deep { 5 } else { 4 };
        v.push(space(format!("short {ty}"), n * n, move |i, cx| {
            let (a, b) = (e[(i % n) as usize], e[(i / n) as usize]);
            if i < n {
                folds(ty, mx, mn, &g, &[a], cx)?;
            }
            folds(ty, mx, mn, &g, &[a, b], cx)?;
            for &c in &e {
                folds(ty, mx, mn, &g, &[a, b, c], cx)?;
                if depth > 3 {
                    for &d in &e {
                        folds(ty, mx, mn, &g, &[a, b, c, d], cx)?;
                        if depth > 4 {
                            for &f in &e {
                                folds(ty, mx, mn, &g, &[a, b, c, d, f], cx)?;
                            }
                        }
                    }
                }
            }
            cx.sample(|| format!("{ty}: all lists of up to {depth} over {n} values starting {}, {}", a.show(), b.show()));
            Ok(())
        }));
    }
    // every pair over the wide set (every pair of values for one-byte types)
    {
        let g = g.clone();
        let e: Rc<Vec<T>> = Rc::new(if ty == "BOOL" {
            elems(ty, true)
        } else if T::BITS == 8 {
            (0..256).map(T::from_bits).collect()
        } else if T::BITS == 16 && deep {
            (0..1 << 16).step_by(7).map(T::from_bits).chain(elems(ty, true)).collect()
        } else {
            elems(ty, true)
        });
        let e2 = e.clone();
        v.push(space(format!("pairs {ty}"), e.len() as u64, move |i, cx| {
            let a = e[i as usize];
            for &b in e.iter() {
                folds(ty, mx, mn, &g, &[a, b], cx)?;
                folds(ty, mx, mn, &g, &[b, a], cx)?;
            }
            Ok(())
        }));
        // LIMIT: all ordered ranges, all values (one-byte types: thorough every triple)
        let all = T::BITS == 8 && deep;
        let lim_e: Rc<Vec<T>> = if T::BITS == 8 { e2 } else { Rc::new(elems(ty, true)) };
        let core: Vec<T> = elems(ty, false);
        v.push(space(format!("limit {ty}"), lim_e.len() as u64, move |i, cx| {
            let a = lim_e[i as usize];
            if a.nan() {
                return Ok(());
            }
            let xs: &[T] = if all || T::BITS != 8 { &lim_e } else { &core };
            for &b in lim_e.iter() {
                if b.nan() || a.ord(b) == Some(Ordering::Greater) {
                    continue;
                }
                limit1(ty, lim, a, a, b, cx)?;
                limit1(ty, lim, a, b, b, cx)?;
                for &x in xs {
                    limit1(ty, lim, a, x, b, cx)?;
                }
            }
            Ok(())
        }));
    }
    // long lists: every position of the extreme element, duplicates of it, every length
    {
        let e: Vec<T> = elems::<T>(ty, false).into_iter().filter(|x| !x.nan()).collect();
        let lens: Vec<usize> = (2..=if deep { 300 } else { 40 }).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537]).collect();
        v.push(space(format!("long {ty}"), lens.len() as u64, move |i, cx| {
            let n = lens[i as usize];
            let pos: Vec<usize> = if n <= 300 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1, 255 % n, 256 % n, 4095 % n, 32767 % n, 32768 % n] };
            let mut sorted = e.clone();
            sorted.sort_by(|a, b| a.ord(*b).unwrap());
            let (lo, hi) = (sorted[0], *sorted.last().unwrap());
            for (bg, x) in [(lo, hi), (hi, lo), (sorted[sorted.len() / 2], hi), (sorted[sorted.len() / 2], lo)] {
                let mut v = vec![bg; n];
                for &p in &pos {
                    v[p] = x;
                    folds(ty, mx, mn, &g, &v, cx)?;
                    let q = (p * 7 + 3) % n;
                    let old = v[q];
                    v[q] = x;
                    folds(ty, mx, mn, &g, &v, cx)?;
                    v[q] = old;
                    v[p] = bg;
                }
            }
            // strictly varied contents, rotated through every start
            for r in 0..pos.len().min(64) {
                let v: Vec<T> = (0..n).map(|k| sorted[(k * 5 + r) % sorted.len()]).collect();
                folds(ty, mx, mn, &g, &v, cx)?;
            }
            cx.sample(|| format!("{ty}: {n} arguments, extreme element at {} positions", pos.len()));
            Ok(())
        }));
    }
}
fn c25(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    macro_rules! go { ($($l:ident)*) => { $( for &(ty, mx, mn, lim) in ffi::$l { sel_spaces(ty, mx, mn, lim, t, &mut v); } )* } }
    go!(SEL_U8 SEL_U16 SEL_U32 SEL_U64 SEL_I8 SEL_I16 SEL_I32 SEL_I64 SEL_F32 SEL_F64);
    v
}

// ================================================================ C27
/// results may be off by this many units in the last place
pub const K: f64 = 4.0;

pub fn ulp64(r: f64) -> f64 {
    if r.is_infinite() {
        return 2f64.powi(971);
    }
    let e = (r.to_bits() >> 52 & 0x7ff) as i64;
    f64::from_bits(if e <= 52 { 1u64 << (e - 1).max(0) } else { ((e - 52) as u64) << 52 })
}
fn val64(r: f64) -> Bf {
    if r.is_infinite() {
        let b = Bf::int(1).shl(1024);
        if r < 0.0 {
            b.neg()
        } else {
            b
        }
    } else {
        Bf::f64(r)
    }
}
/// |r - t| within K units of r
fn near64(r: f64, t: &Bf) -> bool {
    if r.is_infinite() && t.neg == (r < 0.0) && val64(r).within(t) {
        return true;
    }
    !r.is_nan() && val64(r).sub(t).within(&Bf::f64(ulp64(r)).mul(&Bf::f64(K)))
}
fn ulp32(r: f32) -> f64 {
    if r.is_infinite() {
        return 2f64.powi(104);
    }
    let e = (r.to_bits() >> 23 & 0xff) as i32;
    2f64.powi(-149 + (e - 1).max(0))
}
pub fn near32(r: f32, t: f64) -> bool {
    if r.is_nan() || t.is_nan() {
        return r.is_nan() && t.is_nan();
    }
    let v = if r.is_infinite() { 2f64.powi(128) * r.signum() as f64 } else { r as f64 };
    if t.is_infinite() {
        return r.is_infinite() && (r > 0.0) == (t > 0.0);
    }
    r.is_infinite() && t / v >= 1.0 || (v - t).abs() <= K * ulp32(r)
}
pub fn eq_bits(r: f64, w: f64) -> bool {
    r.is_nan() && w.is_nan() || r.to_bits() == w.to_bits()
}
/// nearest integer, halves away from zero, by integer arithmetic on the mantissa; p mantissa bits
fn round_model(bits: u64, p: u32, ebits: u32) -> u64 {
    let f = p - 1;
    let sign = bits >> (f + ebits) << (f + ebits);
    let mag = bits ^ sign;
    let bias = (1i64 << (ebits - 1)) - 1;
    let e = (mag >> f) as i64 - bias;
    if e >= f as i64 {
        return bits; // integral, infinite or not a number
    }
    if e < -1 {
        return sign;
    }
    let one = (bias as u64) << f;
    if e == -1 {
        return sign | one;
    }
    // drop the fraction after adding one half; a carry into the exponent is the right thing
    let unit = 1u64 << (f as i64 - e);
    sign | ((mag + unit / 2) & !(unit - 1))
}
/// None: fine; Some(expected) otherwise
pub fn check64(fun: &str, x: f64, r: f64) -> Option<String> {
    let ok = |b: bool, w: String| if b { None } else { Some(w) };
    let exact = |w: f64| ok(eq_bits(r, w), format!("{w:e}"));
    if x.is_nan() {
        return exact(f64::NAN);
    }
    let t = |t: Bf| ok(near64(r, &t), format!("{:e}", t.to_f64()));
    match fun {
        "ROUND" => exact(f64::from_bits(round_model(x.to_bits(), 53, 11))),
        "SQRT" => {
            if x == 0.0 || x == f64::INFINITY {
                return exact(x);
            }
            if x < 0.0 {
                return exact(f64::NAN);
            }
            if !(r > 0.0 && r < f64::INFINITY) {
                return Some("a positive number".into());
            }
            // IEEE: correctly rounded; the midpoints to the neighbours are never squares
            let h = Bf::f64(ulp64(r)).shl(-1);
            let (lo, hi) = (Bf::f64(r).sub(&h), Bf::f64(r).add(&h));
            let x = Bf::f64(x);
            ok(!x.lt(&lo.mul(&lo)) && !hi.mul(&hi).lt(&x), "the correctly rounded root".into())
        }
        "LN" | "LOG" => {
            if x == 0.0 {
                return exact(f64::NEG_INFINITY);
            }
            if x < 0.0 {
                return exact(f64::NAN);
            }
            if x == f64::INFINITY || x == 1.0 {
                return exact(if x == 1.0 { 0.0 } else { x });
            }
            let l = bf::ln(&Bf::f64(x));
            if fun == "LN" {
                t(l)
            } else {
                if !r.is_finite() {
                    return Some("a finite number".into());
                }
                let d = Bf::f64(r).mul(&bf::ln10()).sub(&l);
                ok(d.within(&Bf::f64(ulp64(r)).mul(&Bf::f64(K)).mul(&bf::ln10())), format!("{:e}", l.to_f64() / std::f64::consts::LN_10))
            }
        }
        "EXP" => {
            if x > 800.0 {
                return exact(f64::INFINITY);
            }
            if x < -800.0 {
                return exact(0.0);
            }
            if r.is_sign_negative() {
                return Some("a non-negative number".into());
            }
            t(bf::exp(&Bf::f64(x)))
        }
        "SIN" | "COS" | "TAN" => {
            if x.is_infinite() {
                return exact(f64::NAN);
            }
            if x == 0.0 && fun != "COS" {
                return exact(x);
            }
            let (s, c) = bf::sincos(x);
            match fun {
                "SIN" => t(s),
                "COS" => t(c),
                _ => {
                    if !r.is_finite() {
                        return Some("a finite number".into());
                    }
                    ok(Bf::f64(r).mul(&c).sub(&s).within(&Bf::f64(ulp64(r)).mul(&Bf::f64(K)).mul(&c)), format!("{:e}", s.to_f64() / c.to_f64()))
                }
            }
        }
        "ASIN" | "ACOS" => {
            if x.abs() > 1.0 {
                return exact(f64::NAN);
            }
            if fun == "ASIN" && x == 0.0 {
                return exact(x);
            }
            if fun == "ACOS" && x == 1.0 {
                return exact(0.0);
            }
            let w = || Some(format!("{:e}", if fun == "ASIN" { x.asin() } else { x.acos() }));
            if r.is_nan() || r.abs() > 3.2 {
                return w();
            }
            let d = Bf::f64(ulp64(r)).mul(&Bf::f64(K));
            let (lo, hi) = (Bf::f64(r).sub(&d), Bf::f64(r).add(&d));
            let xb = Bf::f64(x);
            let half = bf::pi().shl(-1);
            let good = if fun == "ASIN" {
                // outside the principal range only the bound itself counts
                if half.lt(&lo) || hi.lt(&half.neg()) {
                    return w();
                }
                (lo.lt(&half.neg()) || !xb.lt(&bf::sincos_small(&lo).0)) && (half.lt(&hi) || !bf::sincos_small(&hi).0.lt(&xb))
            } else {
                if bf::pi().lt(&lo) || hi.neg {
                    return w();
                }
                (lo.neg || !bf::sincos_small(&lo).1.lt(&xb)) && (bf::pi().lt(&hi) || !xb.lt(&bf::sincos_small(&hi).1))
            };
            if good {
                None
            } else {
                w()
            }
        }
        "ATAN" => {
            if x == 0.0 {
                return exact(x);
            }
            if x.is_infinite() {
                return t(if x > 0.0 { bf::pi().shl(-1) } else { bf::pi().shl(-1).neg() });
            }
            ok(angle64(r, &Bf::f64(x), &Bf::int(1)), format!("{:e}", x.atan()))
        }
        _ => unreachable!(),
    }
}
/// whether r is within K units of the angle of the direction (x, y), y > 0 or x > 0 or y != 0
pub fn angle64(r: f64, y: &Bf, x: &Bf) -> bool {
    if !(r.abs() < 3.2) {
        return false;
    }
    // scale the larger coordinate to about 1, so that tiny ones cannot be lost
    let k = -x.e.max(y.e);
    let (x, y) = (if x.is_zero() { *x } else { x.shl(k) }, if y.is_zero() { *y } else { y.shl(k) });
    let d = Bf::f64(ulp64(r)).mul(&Bf::f64(K));
    let (s0, c0) = bf::sincos_small(&Bf::f64(r).sub(&d));
    let (s1, c1) = bf::sincos_small(&Bf::f64(r).add(&d));
    let cross = |s: &Bf, c: &Bf| c.mul(&y).sub(&s.mul(&x));
    let dot = c0.mul(&x).add(&s0.mul(&y));
    let (a, b) = (cross(&s0, &c0), cross(&s1, &c1));
    !a.neg && (b.neg || b.is_zero()) && !dot.neg
}
/// the conventions of IEEE 754 for atan2
pub fn atan2_special(y: f64, x: f64) -> Option<f64> {
    use std::f64::consts::*;
    if x.is_nan() || y.is_nan() {
        return Some(f64::NAN);
    }
    let neg_x = x.is_sign_negative();
    if y == 0.0 {
        return Some((if neg_x { PI } else { 0.0 }).copysign(y));
    }
    if x == 0.0 {
        return Some(FRAC_PI_2.copysign(y));
    }
    match (y.is_infinite(), x.is_infinite()) {
        (true, true) => Some((if neg_x { 3.0 * FRAC_PI_4 } else { FRAC_PI_4 }).copysign(y)),
        (true, false) => Some(FRAC_PI_2.copysign(y)),
        (false, true) => Some((if neg_x { PI } else { 0.0 }).copysign(y)),
        _ => None,
    }
}
fn odd(y: f64) -> bool {
    y.is_finite() && y.abs() < 9007199254740992.0 && y.trunc() == y && (y as i64) % 2 != 0
}
fn integral(y: f64) -> bool {
    y.is_finite() && y.trunc() == y
}
/// the conventions of IEEE 754 for pow
fn pow_special(x: f64, y: f64) -> Option<f64> {
    if y == 0.0 || x == 1.0 {
        return Some(1.0);
    }
    if x.is_nan() || y.is_nan() {
        return Some(f64::NAN);
    }
    let sgn = if x.is_sign_negative() && odd(y) { -1.0 } else { 1.0 };
    if x == -1.0 && (y.is_infinite() || integral(y)) {
        return Some(if y.is_infinite() { 1.0 } else { sgn });
    }
    if y.is_infinite() {
        return Some(if (x.abs() > 1.0) == (y > 0.0) { f64::INFINITY } else { 0.0 });
    }
    if x == 0.0 {
        return Some(sgn * if y < 0.0 { f64::INFINITY } else { 0.0 });
    }
    if x.is_infinite() {
        return Some(sgn * if y > 0.0 { f64::INFINITY } else { 0.0 });
    }
    if x < 0.0 && !integral(y) {
        return Some(f64::NAN);
    }
    None
}
/// x^y > 0 for |x| other than 0, 1; None: outside 2^(+-2000)
fn pow_mag(x: f64, y: f64) -> (Bf, f64, Option<Bf>) {
    let l = bf::ln(&Bf::f64(x.abs())).mul(&Bf::f64(y));
    let lf = if l.e > 60 { if l.neg { -1e18 } else { 1e18 } } else { l.to_f64() };
    let v = if lf.abs() < 1400.0 { Some(bf::exp(&l)) } else { None };
    (l, lf, v)
}
/// checks a LREAL power to `units` units; `powi`: repeated multiplication
pub fn pow64(x: f64, y: f64, r: f64, powi: bool) -> Option<String> {
    if let Some(w) = pow_special(x, y) {
        return if eq_bits(r, w) { None } else { Some(format!("{w:e}")) };
    }
    let neg = x < 0.0 && odd(y);
    if r.is_nan() || r.is_sign_negative() != neg {
        return Some(format!("a {} number", if neg { "negative" } else { "non-negative" }));
    }
    let r = r.abs();
    let (_, lf, v) = pow_mag(x, y);
    let Some(v) = v else {
        let w = if lf > 0.0 { f64::INFINITY } else { 0.0 };
        return if r == w { None } else { Some(format!("{w:e}")) };
    };
    let w = || Some(format!("{:e} (in magnitude)", v.to_f64()));
    if powi {
        let units = y.abs() + 4.0;
        // intermediate results outside the normal range
        if v.e <= -1022 && r < 2f64.powi(-1021) || v.e >= 1022 && r >= 2f64.powi(1020) {
            return None;
        }
        let u = if r.is_infinite() { ulp64(f64::MAX) } else { ulp64(r) };
        if val64(r).sub(&v).within(&Bf::f64(u).mul(&Bf::f64(units))) {
            return None;
        }
        return w();
    }
    if near64(r, &v) {
        None
    } else {
        w()
    }
}
/// as pow64 for a REAL result; `slack`: relative error allowed in the exponent
pub fn pow32(x: f32, y: f64, r: f32, powi: bool, slack: f64) -> Option<String> {
    let yr = y as f32 as f64;
    let inexact = slack > 0.0 && yr != y && !y.is_nan();
    let special = |y: f64| pow_special(x as f64, y).map(|w| if eq_bits(r as f64, w) { None } else { Some(format!("{w:e}")) });
    if let Some(s) = special(y) {
        // the exponent rounded to REAL may be integral, 0 or infinite although y is not
        if s.is_none() || !inexact {
            return s;
        }
        if let Some(None) = special(yr) {
            return None;
        }
        if !(x < 0.0 && integral(yr)) {
            return s;
        }
    }
    if inexact {
        if let Some(None) = special(yr) {
            return None;
        }
    }
    let neg = x < 0.0 && odd(y);
    let neg2 = x < 0.0 && odd(yr);
    if r.is_nan() || r.is_sign_negative() != neg && (!inexact || r.is_sign_negative() != neg2) {
        return Some(format!("a {} number", if neg { "negative" } else { "non-negative" }));
    }
    let r = r.abs();
    let l = (x.abs() as f64).ln() * y; // relative error of about 2^-52
    let t = l.exp();
    let w = || Some(format!("{t:e} (in magnitude)"));
    if powi {
        if t < 2f64.powi(-125) && r < 2f32.powi(-124) || t > 2f64.powi(125) && r > 2f32.powi(124) {
            return None;
        }
        let units = y.abs() + 4.0;
        // compared as logarithms: the accumulated error can exceed the result
        let e = (units * 2f64.powi(-23)).min(1e9);
        let lr = if r == 0.0 { -104.0 } else if r.is_infinite() { 88.8 } else { (r as f64).ln() };
        let (lo, hi) = (l - e, l + e);
        if lr >= lo.min(88.7) && lr <= hi.max(-103.9) {
            return None;
        }
        return w();
    }
    let e = l.abs() * (slack + 2f64.powi(-50));
    let (lo, hi) = ((l - e).exp(), (l + e).exp());
    let v = if r.is_infinite() { 2f64.powi(128) } else { r as f64 };
    let tol = K * ulp32(r);
    if v + tol >= lo.min(2f64.powi(128)) && (v - tol <= hi) {
        None
    } else {
        w()
    }
}

pub fn mants64(deep: bool) -> Vec<u64> {
    let m = (1u64 << 52) - 1;
    let mut v = vec![0, 1, 2, m, m - 1, 1 << 51, (1 << 51) - 1, (1 << 51) + 1, 1 << 50, 0x5555555555555 & m, 0xaaaaaaaaaaaaa & m];
    for c in [std::f64::consts::PI, std::f64::consts::E, std::f64::consts::LN_2, std::f64::consts::LN_10, std::f64::consts::SQRT_2, 3.0 * std::f64::consts::FRAC_PI_4, 10.0, 1e22, 0.1] {
        v.push(c.to_bits() & m);
    }
    for k in 0..52 {
        v.push(1u64 << k);
    }
    if deep {
        for k in 0..52 {
            v.extend([m ^ (1 << k), m >> k]);
        }
        for k in 0..1024u64 {
            v.push(k << 42 | (k.wrapping_mul(0x9e3779b97f4a7c15) >> 22));
        }
    }
    v.sort();
    v.dedup();
    v
}
/// two-argument alphabet: every binary exponent class thinned, with structured mantissas
pub fn grid64(step: u64, mants: &[u64]) -> Vec<f64> {
    let mut v = vec![0.0, f64::INFINITY, f64::NAN, 0.5, 1.0, 1.5, 2.0, 3.0, 10.0, 1.0 / 3.0, f64::MIN_POSITIVE, f64::MAX, 5e-324, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 4503599627370497.0, 9007199254740991.0, 9007199254740992.0, 1e15, 16777217.0, 1023.0, 1024.0, 1074.0, 1075.0, 4294967297.0];
    for e in (1..2047).step_by(step as usize).chain(1023 - 8..1023 + 12) {
        for m in mants {
            v.push(f64::from_bits(e << 52 | m));
        }
    }
    let n: Vec<f64> = v.iter().map(|x| -x).collect();
    v.extend(n);
    v
}

fn c27(t: Tier) -> Vec<Space> {
    let deep = thorough(t);
    let mut v = vec![];
    // ---- LREAL functions of one argument
    for &(name, f) in ffi::UN64 {
        let fun: &'static str = name.split("__").next().unwrap();
        let ms = mants64(deep);
        v.push(space(format!("{name} exponents"), 2048, move |e, cx| {
            let mut xs: Vec<f64> = ms.iter().flat_map(|m| [f64::from_bits(e << 52 | m), f64::from_bits(1 << 63 | e << 52 | m)]).collect();
            xs.dedup();
            one64(name, fun, f, &xs, cx)
        }));
        // around every integer and half, and every multiple of pi/4 to 2^11; thorough to 2^16
        let n = if deep { 1u64 << 16 } else { 1 << 11 };
        v.push(space(format!("{name} critical points"), n / 64, move |i, cx| {
            let mut xs = vec![];
            for k in i * 64..(i + 1) * 64 {
                let k = k as f64;
                for c in [k, k + 0.5, k * std::f64::consts::FRAC_PI_4, k / n as f64, 1.0 + k * f64::EPSILON, 1.0 - k * f64::EPSILON / 2.0, -745.2 + k * (745.2 + 709.9) / n as f64, k * std::f64::consts::LN_2 / 2.0] {
                    for d in -1i64..=1 {
                        let b = (c.to_bits() as i64 + d).max(0) as u64;
                        xs.extend([f64::from_bits(b), -f64::from_bits(b)]);
                    }
                }
            }
            one64(name, fun, f, &xs, cx)
        }));
    }
    // ---- REAL functions of one argument: against the LREAL mathematics
    for &(name, f) in ffi::UN32 {
        let fun: &'static str = name.split("__").next().unwrap();
        v.push(space(format!("{name} patterns"), 1 << 12, move |i, cx| {
            // thorough: every pattern in the release build, a quarter of them in the checked one
            let n: u32 = if !deep { 1 << 11 } else if cx.build == "release" { 1 << 20 } else { 1 << 18 };
            let sh = 20 - n.trailing_zeros();
            for k in 0..n {
                let b = (i as u32) << 20 | k << sh | if sh > 0 { (k * 0x9e37) & ((1 << sh) - 1) * (k & 1) } else { 0 };
                one32(name, fun, f, b, cx)?;
                if sh > 0 && k % 16 == 0 {
                    for d in 1..=2 {
                        one32(name, fun, f, b.wrapping_add(d), cx)?;
                        one32(name, fun, f, b.wrapping_sub(d), cx)?;
                    }
                }
                if k % 65536 == 65535 {
                    cx.beat();
                }
            }
            cx.sample(|| format!("{name}: {n} patterns from 16#{:08X}", (i as u32) << 20));
            Ok(())
        }));
        v.push(space(format!("{name} critical points"), 64, move |i, cx| {
            for k in (i as u32 * 1024..(i as u32 + 1) * 1024).map(|k| k as f64) {
                for c in [k, k + 0.5, k * std::f64::consts::FRAC_PI_4, k / 65536.0, 1.0 + k / 8388608.0, 1.0 - k / 16777216.0, -104.0 + k * 194.0 / 65536.0] {
                    let b = (c as f32).to_bits();
                    for d in [0u32, 1, u32::MAX] {
                        one32(name, fun, f, b.wrapping_add(d), cx)?;
                        one32(name, fun, f, b.wrapping_add(d) ^ 0x8000_0000, cx)?;
                    }
                }
            }
            Ok(())
        }));
    }
    // ---- ATAN2
    let g64 = Rc::new(if deep { grid64(7, &[0, 1, (1 << 52) - 1, 0x921fb54442d18]) } else { grid64(127, &[0, 1, 0x921fb54442d18]) });
    {
        let g = g64.clone();
        v.push(space("ATAN2__LREAL", g.len() as u64, move |i, cx| {
            let y = g[i as usize];
            for &x in g.iter() {
                cx.describe(|| format!("ATAN2__LREAL({y:e}, {x:e})"));
                let r = tri(|| unsafe { ffi::ATAN2__LREAL(y, x) });
                cx.case(y != 0.0 && x != 0.0);
                let Some(r) = r else { bail!("ATAN2__LREAL", "ATAN2__LREAL({y:e}, {x:e}) aborts") };
                let good = match atan2_special(y, x) {
                    Some(w) if w == 0.0 || w.is_nan() => eq_bits(r, w),
                    Some(w) => (r - w).abs() <= K * ulp64(w),
                    None => r.is_sign_negative() == (y < 0.0) && angle64(r, &Bf::f64(y), &Bf::f64(x)),
                };
                ensure!(good, "ATAN2__LREAL", "ATAN2__LREAL({y:e}, {x:e}) = {r:e}, expected about {:e}", y.atan2(x));
            }
            Ok(())
        }));
    }
    let g32: Rc<Vec<f32>> = Rc::new({
        let mut w: Vec<u32> = vec![0, 1, 0x7f80_0000, 0x7fc0_0000, 0x7f7f_ffff, 0x3f80_0000, 0x4b80_0001, 0x4b7f_ffff, 0x4b80_0000, 0x0080_0000, 0x007f_ffff];
        for e in (1..255).step_by(if deep { 2 } else { 8 }).chain(120..140) {
            for m in [0, 1, 0x7fffff, 0x490fdb, 0x400000] {
                w.push(e << 23 | m);
            }
        }
        w.iter().flat_map(|b| [f32::from_bits(*b), f32::from_bits(b | 0x8000_0000)]).collect()
    });
    {
        let g = g32.clone();
        v.push(space("ATAN2__REAL", g.len() as u64, move |i, cx| {
            let y = g[i as usize];
            for &x in g.iter() {
                cx.describe(|| format!("ATAN2__REAL({y:e}, {x:e})"));
                cx.case(y != 0.0 && x != 0.0);
                let Some(r) = tri(|| unsafe { ffi::ATAN2__REAL(y, x) }) else { bail!("ATAN2__REAL", "ATAN2__REAL({y:e}, {x:e}) aborts") };
                let good = match atan2_special(y as f64, x as f64) {
                    Some(w) if w == 0.0 || w.is_nan() => eq_bits(r as f64, w),
                    Some(w) => near32(r, w),
                    None => r.is_sign_negative() == (y < 0.0) && near32(r, (y as f64).atan2(x as f64)),
                };
                ensure!(good, "ATAN2__REAL", "ATAN2__REAL({y:e}, {x:e}) = {r:e}, expected about {:e}", (y as f64).atan2(x as f64));
            }
            Ok(())
        }));
    }
    // ---- EXPT with floating point exponents
    {
        // bases: everything; exponents: small and large magnitudes, integers of both parities
        let mut ys: Vec<f64> = vec![];
        for k in 0..=40 {
            ys.extend([k as f64, k as f64 + 0.5, k as f64 / 3.0]);
        }
        for e in (1023 - 60..1023 + 70).step_by(if deep { 1 } else { 5 }) {
            for m in [0u64, 1, (1 << 52) - 1, 1 << 51] {
                ys.push(f64::from_bits(e << 52 | m));
            }
        }
        ys.extend(g64.iter().take(25));
        let n: Vec<f64> = ys.iter().map(|y| -y).collect();
        ys.extend(n);
        let ys = Rc::new(ys);
        for kind in 0..2 {
            let (g, ys) = (g64.clone(), ys.clone());
            let name = ["EXPT__LREAL__LREAL", "EXPT__LREAL__REAL"][kind];
            v.push(space(name, g.len() as u64, move |i, cx| {
                let x = g[i as usize];
                for &y in ys.iter() {
                    if kind == 1 && !y.is_nan() && y as f32 as f64 != y {
                        continue;
                    }
                    cx.describe(|| format!("{name}({x:e}, {y:e})"));
                    cx.case(x.is_finite() && y.is_finite() && y != 0.0);
                    let r = tri(|| unsafe { if kind == 0 { ffi::EXPT__LREAL__LREAL(x, y) } else { ffi::EXPT__LREAL__REAL(x, y as f32) } });
                    let Some(r) = r else { bail!(name, "{name}({x:e}, {y:e}) aborts") };
                    if let Some(w) = pow64(x, y, r, false) {
                        bail!(name, "{name}({x:e}, {y:e}) = {r:e}, expected {w}");
                    }
                }
                cx.sample(|| format!("{name}({x:e}, y) for {} exponents", ys.len()));
                Ok(())
            }));
        }
        for kind in 0..2 {
            let (g, ys) = (g32.clone(), ys.clone());
            let name = ["EXPT__REAL__REAL", "EXPT__REAL__LREAL"][kind];
            v.push(space(name, g.len() as u64, move |i, cx| {
                let x = g[i as usize];
                for &y in ys.iter() {
                    if kind == 0 && !y.is_nan() && y as f32 as f64 != y {
                        continue;
                    }
                    cx.describe(|| format!("{name}({x:e}, {y:e})"));
                    cx.case(x.is_finite() && y.is_finite() && y != 0.0);
                    let r = tri(|| unsafe { if kind == 0 { ffi::EXPT__REAL__REAL(x, y as f32) } else { ffi::EXPT__REAL__LREAL(x, y) } });
                    let Some(r) = r else { bail!(name, "{name}({x:e}, {y:e}) aborts") };
                    if let Some(w) = pow32(x, y, r, false, if kind == 0 { 0.0 } else { 2f64.powi(-24) }) {
                        bail!(name, "{name}({x:e}, {y:e}) = {r:e}, expected {w}");
                    }
                }
                Ok(())
            }));
        }
    }
    // ---- EXPT with DINT exponents
    {
        let mut ns: Vec<i32> = (-140..=140).chain(bounds(32, true).iter().map(|x| *x as i32)).chain([-1075, -1074, -1023, -1022, 1023, 1024]).collect();
        ns.sort();
        ns.dedup();
        let ns = Rc::new(ns);
        let (g, ns1) = (g64.clone(), ns.clone());
        v.push(space("EXPT__LREAL__DINT", g.len() as u64, move |i, cx| {
            let x = g[i as usize];
            for &n in ns1.iter() {
                cx.describe(|| format!("EXPT__LREAL__DINT({x:e}, {n})"));
                cx.case(x.is_finite() && n != 0);
                let Some(r) = tri(|| unsafe { ffi::EXPT__LREAL__DINT(x, n) }) else { bail!("EXPT__LREAL__DINT", "EXPT__LREAL__DINT({x:e}, {n}) aborts") };
                if let Some(w) = pow64(x, n as f64, r, true) {
                    bail!("EXPT__LREAL__DINT", "EXPT__LREAL__DINT({x:e}, {n}) = {r:e}, expected {w}");
                }
            }
            Ok(())
        }));
        let (g, ns1) = (g32.clone(), ns.clone());
        v.push(space("EXPT__REAL__DINT", g.len() as u64, move |i, cx| {
            let x = g[i as usize];
            for &n in ns1.iter() {
                cx.describe(|| format!("EXPT__REAL__DINT({x:e}, {n})"));
                cx.case(x.is_finite() && n != 0);
                let Some(r) = tri(|| unsafe { ffi::EXPT__REAL__DINT(x, n) }) else { bail!("EXPT__REAL__DINT", "EXPT__REAL__DINT({x:e}, {n}) aborts") };
                if let Some(w) = pow32(x, n as f64, r, true, 0.0) {
                    bail!("EXPT__REAL__DINT", "EXPT__REAL__DINT({x:e}, {n}) = {r:e}, expected {w}");
                }
            }
            Ok(())
        }));
    }
    // every integer base to 2000 (and powers of two around the limits) with every exponent whose result is exact
    v.push(space("EXPT integer bases", if deep { 100000 } else { 2100 }, move |i, cx| {
        let b0 = if i < 2000 { i as i128 + 2 } else if deep { i as i128 } else { (1i128 << (11 + (i - 2000) % 42)) + ((i - 2000) / 42) as i128 - 1 };
        for b in [b0, -b0] {
            let mut p: i128 = 1;
            for n in 0..=53i32 {
                if p.abs() > 1 << 53 {
                    break;
                }
                let mut t64 = vec![("EXPT__LREAL__DINT", tri(|| unsafe { ffi::EXPT__LREAL__DINT(b as f64, n) })), ("EXPT__LREAL__LREAL", tri(|| unsafe { ffi::EXPT__LREAL__LREAL(b as f64, n as f64) }))];
                t64.push(("EXPT__LREAL__REAL", tri(|| unsafe { ffi::EXPT__LREAL__REAL(b as f64, n as f32) })));
                for (nm, r) in t64 {
                    cx.case(n > 1);
                    ensure!(r == Some(p as f64), nm, "{nm}({b}, {n}) = {r:?}, expected {p}");
                }
                if p.abs() <= 1 << 24 && b.abs() <= 1 << 24 {
                    let t32 = vec![("EXPT__REAL__DINT", tri(|| unsafe { ffi::EXPT__REAL__DINT(b as f32, n) })), ("EXPT__REAL__REAL", tri(|| unsafe { ffi::EXPT__REAL__REAL(b as f32, n as f32) })), ("EXPT__REAL__LREAL", tri(|| unsafe { ffi::EXPT__REAL__LREAL(b as f32, n as f64) }))];
                    for (nm, r) in t32 {
                        cx.case(n > 1);
                        ensure!(r == Some(p as f32), nm, "{nm}({b}, {n}) = {r:?}, expected {p}");
                    }
                }
                p *= b;
            }
        }
        Ok(())
    }));
    // ---- constants: correctly rounded
    v.push(space("constants", 8, move |i, cx| {
        let (pi, e) = (bf::pi(), bf::exp(&Bf::int(1)));
        unsafe {
            let (n, got, want, is32) = match i {
                0 => ("PI_LREAL", ffi::PI_LREAL, pi, false),
                1 => ("PI_REAL", ffi::PI_REAL as f64, pi, true),
                2 => ("FRAC_PI_2_LREAL", ffi::FRAC_PI_2_LREAL, pi.shl(-1), false),
                3 => ("FRAC_PI_2_REAL", ffi::FRAC_PI_2_REAL as f64, pi.shl(-1), true),
                4 => ("FRAC_PI_4_LREAL", ffi::FRAC_PI_4_LREAL, pi.shl(-2), false),
                5 => ("FRAC_PI_4_REAL", ffi::FRAC_PI_4_REAL as f64, pi.shl(-2), true),
                6 => ("E_LREAL", ffi::E_LREAL, e, false),
                _ => ("E_REAL", ffi::E_REAL as f64, e, true),
            };
            cx.case(true);
            let half = if is32 { ulp32(got as f32) / 2.0 } else { ulp64(got) / 2.0 };
            ensure!(Bf::f64(got).sub(&want).within(&Bf::f64(half)), n, "{n} = {got:?} is not the correctly rounded constant");
            cx.sample(|| format!("{n} = {got:?}"));
        }
        Ok(())
    }));
    v
}
fn one64(name: &str, fun: &str, f: unsafe extern "C-unwind" fn(f64) -> f64, xs: &[f64], cx: &mut Ctx) -> R {
    for &x in xs {
        cx.describe(|| format!("{name}({x:e})"));
        cx.case(x.is_finite());
        let Some(r) = tri(|| unsafe { f(x) }) else { bail!(name, "{name}({x:e}) aborts") };
        if let Some(w) = check64(fun, x, r) {
            bail!(name, "{name}({x:?} = 16#{:016X}) = {r:?}, expected {w}", x.to_bits());
        }
    }
    cx.sample(|| format!("{name}({:e}) = {:e} and {} neighbours", xs[0], unsafe { f(xs[0]) }, xs.len() - 1));
    Ok(())
}
#[inline]
fn one32(name: &str, fun: &str, f: unsafe extern "C-unwind" fn(f32) -> f32, b: u32, cx: &mut Ctx) -> R {
    let x = f32::from_bits(b);
    if cx.verbose {
        cx.describe(|| format!("{name}({x:e})"));
    }
    cx.case(x.is_finite());
    let Some(r) = tri(|| unsafe { f(x) }) else { bail!(name, "{name}({x:e}) aborts") };
    if let Some(w) = check32(fun, x, r) {
        bail!(name, "{name}({x:?} = 16#{b:08X}) = {r:?}, expected {w}");
    }
    Ok(())
}
/// what a REAL function should have delivered, if `r` is not it
pub fn check32(fun: &str, x: f32, r: f32) -> Option<String> {
    let d = x as f64;
    let t = match fun {
        "ROUND" => {
            let w = f32::from_bits(round_model(x.to_bits() as u64, 24, 8) as u32);
            let good = w.is_nan() && r.is_nan() || w.to_bits() == r.to_bits();
            return if good { None } else { Some(format!("{w:?}")) };
        }
        "SQRT" => d.sqrt(),
        "LN" => d.ln(),
        "LOG" => d.log10(),
        "EXP" => d.exp(),
        "SIN" => d.sin(),
        "COS" => d.cos(),
        "TAN" => d.tan(),
        "ASIN" => d.asin(),
        "ACOS" => d.acos(),
        _ => d.atan(),
    };
    // zeros and out-of-domain arguments as IEEE 754 asks
    let good = near32(r, t) && (t != 0.0 || r.is_sign_negative() == t.is_sign_negative());
    if good { None } else { Some(format!("about {t:?}")) }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            level: "exploration",
            rule: "more than one argument (MAX, MIN) or an ordered range (LIMIT)",
            assumptions: &["BOOL arguments are 0 or 1", "LIMIT is called with mn <= mx", "the argument array holds exactly as many elements as announced (it ends at an inaccessible page)"],
            exhaustive: true,
            spaces: c25,
        },
        Prop {
            id: "C27",
            level: "exploration",
            rule: "finite arguments (and a non-zero exponent)",
            assumptions: &["to the precision of the type: 4 units in the last place (SQRT and ROUND exact), DINT exponents |n|+4 units", "REAL functions are compared with the same function in double precision, LREAL functions with 256-bit arithmetic"],
            exhaustive: true,
            spaces: c27,
        },
    ]
}
