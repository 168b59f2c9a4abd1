//! C18 add/subtract, C19 TIME x integer, C20 TIME x REAL, C21 composing, C22 splitting.
use super::bits::lreal_mantissas;
use super::text::{tods, DAY_HI, DAY_LO};
use crate::big::{F32, F64};
use crate::core::*;
use crate::ffi::*;
use crate::*;

pub const DAY: i64 = 86_400_000_000_000;
const DAYW: i128 = DAY as i128;
/// proleptic Gregorian date of a day number (0 = 1970-01-01), by counting
pub fn civil(day: i64) -> (i64, i64, i64) {
    let mut y = 1970 + day.div_euclid(366);
    while days(y + 1, 1, 1) <= day {
        y += 1;
    }
    while days(y, 1, 1) > day {
        y -= 1;
    }
    let mut r = day - days(y, 1, 1);
    for m in 1..=12 {
        let l = month_len(y, m);
        if r < l {
            return (y, m, r + 1);
        }
        r -= l;
    }
    unreachable!()
}
pub fn leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}
pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// day number of a date
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let p = y - 1;
    let mut n = p * 365 + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400) - 719_162;
    for k in 1..m {
        n += month_len(y, k);
    }
    n + d - 1
}
pub fn fit(x: i128) -> Option<i64> {
    x.try_into().ok()
}
pub fn same(key: &str, args: impl Fn() -> String, g: Result<i64, String>, w: Option<i64>) -> R {
    match (g, w) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Err(_), None) => Ok(()),
        (Ok(g), Some(w)) => Err(fail(key, format!("{key}({}) = {g}, expected {w}", args()))),
        (Ok(g), None) => Err(fail(key, format!("{key}({}) = {g}, expected an abort", args()))),
        (Err(p), Some(w)) => Err(fail(key, format!("{key}({}) aborts ({p}), expected {w}", args()))),
    }
}

// ---------------------------------------------------------------- C18
type F2 = unsafe extern "C-unwind" fn(i64, i64) -> i64;
const ADDSUB: &[(&str, i128, F2)] = &[
    ("ADD_TIME", 1, ADD_TIME),
    ("ADD_TOD_TIME", 1, ADD_TOD_TIME),
    ("ADD_DT_TIME", 1, ADD_DT_TIME),
    ("SUB_TIME", -1, SUB_TIME),
    ("SUB_DATE_DATE", -1, SUB_DATE_DATE),
    ("SUB_TOD_TIME", -1, SUB_TOD_TIME),
    ("SUB_TOD_TOD", -1, SUB_TOD_TOD),
    ("SUB_DT_TIME", -1, SUB_DT_TIME),
    ("SUB_DT_DT", -1, SUB_DT_DT),
];
/// times of interest: powers of two and ten and multiples of every unit, each with neighbours
pub fn times() -> Vec<i64> {
    let mut v: Vec<i64> = bounds(64, true).iter().map(|x| *x as i64).collect();
    for u in [1000i64, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, DAY, 365 * DAY, 36524 * DAY, 106_751 * DAY] {
        for k in [1, 2, 3, 7, 59, 60, 61] {
            for d in [-1, 0, 1] {
                if let Some(x) = u.checked_mul(k).and_then(|x| x.checked_add(d)) {
                    v.extend([x, -x]);
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn check_addsub(cx: &mut Ctx, a: i64, b: i64) -> R {
    for (n, s, f) in ADDSUB {
        let w = fit(a as i128 + s * b as i128);
        cx.case(w.is_none() || a != 0 && b != 0);
        cx.describe(|| format!("{n}({a}, {b})"));
        same(n, || format!("{a}, {b}"), catch(|| unsafe { f(a, b) }), w)?;
    }
    Ok(())
}
fn c18(t: Tier) -> Vec<Space> {
    let ts = times();
    let n = ts.len() as u64;
    let t2 = ts.clone();
    let mut v = vec![
        space("all pairs of boundary times", n, move |i, cx| {
            let a = ts[i as usize];
            for &b in &ts {
                check_addsub(cx, a, b)?;
            }
            cx.sample(|| format!("{a} against all"));
            Ok(())
        }),
        space("operands around the representable limit", n, move |i, cx| {
            let a = t2[i as usize];
            for lim in [i64::MAX as i128, i64::MIN as i128, 0] {
                for d in -3..=3 {
                    for b in [lim - a as i128 + d, a as i128 - lim + d] {
                        if let Some(b) = fit(b) {
                            check_addsub(cx, a, b)?;
                            check_addsub(cx, b, a)?;
                        }
                    }
                }
            }
            Ok(())
        }),
    ];
    let step = if thorough(t) { 1 } else { 8 };
    v.push(space("every day of the range with boundary offsets", ((DAY_HI - DAY_LO) / step) as u64, move |i, cx| {
        let d = DAY_LO + 1 + i as i64 * step;
        for off in [0, 1, -1, DAY - 1, 12 * 3_600_000_000_000] {
            if let Some(a) = fit(d as i128 * DAYW + off as i128) {
                for b in [1, -1, DAY, -DAY, DAY - 1, 999_999_999] {
                    check_addsub(cx, a, b)?;
                }
            }
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C19
fn c19(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    for (name, ty, div, f) in scales() {
        let ts = times();
        let mut ops: Vec<i128> = if ty.bits == 8 || ty.bits == 16 && thorough(t) { (ty.lo()..=ty.hi()).collect() } else { bounds(ty.bits, ty.signed) };
        ops.extend([3, 5, 6, 7, 11, 13, 60, 86400, 999].iter().filter(|x| ty.has(**x)));
        ops.sort();
        ops.dedup();
        let tn = if thorough(t) { ts } else { ts.iter().copied().enumerate().filter(|(i, x)| i % 4 == 0 || x.unsigned_abs() < 5 || x.unsigned_abs() > i64::MAX as u64 - 5).map(|(_, x)| x).collect() };
        let n = ops.len() as u64;
        v.push(space(format!("{name}: boundary times x operands, and times at the limit of every operand"), n, move |i, cx| {
            let b = ops[i as usize];
            let mut one = |a: i64, cx: &mut Ctx| -> R {
                let w = if div {
                    if b == 0 {
                        None
                    } else {
                        fit(a as i128 / b)
                    }
                } else {
                    fit(a as i128 * b)
                };
                cx.case(w.is_none() || w != Some(0));
                cx.describe(|| format!("{name}({a}, {b})"));
                same(name, || format!("{a}, {b}"), catch(|| f(a, b)), w)
            };
            for &a in &tn {
                one(a, cx)?;
            }
            if b != 0 {
                for lim in [i64::MAX as i128, i64::MIN as i128] {
                    for d in -2..=2 {
                        for a in [lim / b + d, b * 1000 + d, b * d, lim - d.abs(), lim + d.abs()] {
                            if let Some(a) = fit(a) {
                                one(a, cx)?;
                            }
                        }
                    }
                }
            }
            cx.sample(|| format!("{name} with {b}"));
            Ok(())
        }));
    }
    v
}

// ---------------------------------------------------------------- C20
/// floor of |a| * m * 2^e, or of |a| / (m * 2^e), None if above 2^70
fn scaled(a: u64, m: u64, e: i64, div: bool) -> Option<u128> {
    if a == 0 {
        return Some(0);
    }
    let (n, s) = if div {
        // normalise the numerator to 127 bits, so that the quotient keeps at least 74
        let sh = (a as u128).leading_zeros() as i64 - 1;
        (((a as u128) << sh) / m as u128, -e - sh)
    } else {
        (a as u128 * m as u128, e)
    };
    if n == 0 {
        return Some(0);
    }
    let bits = 128 - n.leading_zeros() as i64;
    if bits + s > 71 {
        return None;
    }
    if s >= 0 {
        Some(n << s)
    } else if s <= -128 {
        Some(0)
    } else {
        Some(n >> -s)
    }
}
pub fn check_scale(key: &str, cx: &mut Ctx, a: i64, b: f64, single: bool, div: bool, f: impl FnOnce() -> i64) -> R {
    let (fm, bits, prec) = if single { (F32, (b as f32).to_bits() as u64 & 0x7fff_ffff, 21) } else { (F64, b.to_bits() & !(1 << 63), 50) };
    let neg = (a < 0) != b.is_sign_negative();
    // None: has to abort
    let exact: Option<Option<u128>> = if b.is_nan() || div && b == 0.0 {
        None
    } else if b.is_infinite() {
        if div {
            Some(Some(0))
        } else {
            None
        }
    } else {
        let (m, e) = fm.split(bits);
        if m == 0 {
            Some(Some(0))
        } else {
            Some(scaled(a.unsigned_abs(), m, e, div))
        }
    };
    cx.describe(|| format!("{key}({a}, {b:e})"));
    let g = catch(f);
    cx.case(!matches!(exact, Some(Some(0))));
    let lim = if neg { 1u128 << 63 } else { (1 << 63) - 1 };
    match exact {
        None | Some(None) => {
            ensure!(g.is_err(), key, "{key}({a}, {b:e}) = {g:?}, expected an abort");
        }
        Some(Some(x)) => {
            let tol = (x >> prec) + 1;
            match g {
                Ok(g) => {
                    ensure!(x <= lim + tol, key, "{key}({a}, {b:e}) = {g}, expected an abort: {x} is out of range");
                    let gm = g.unsigned_abs() as u128;
                    let off = gm.abs_diff(x);
                    // floor(exact) was computed: the exact value lies in [x, x+1]
                    ensure!(off <= tol + 1 && (g == 0 || (g < 0) == neg), key, "{key}({a}, {b:e}) = {g}, expected about {}{x}", if neg { "-" } else { "" });
                }
                Err(p) => ensure!(x + tol >= lim, key, "{key}({a}, {b:e}) aborts ({p}), expected about {}{x}", if neg { "-" } else { "" }),
            }
        }
    }
    Ok(())
}
pub fn reals32(t: Tier) -> Vec<f32> {
    let mut v = vec![];
    for e in 0..=255u32 {
        for m in [0u32, 1, 2, 0x200000, 0x400000, 0x2aaaab, 0x555555, 0x7ffffe, 0x7fffff, 0x19999a, 0x4ccccd, 0x333333] {
            v.push(f32::from_bits(e << 23 | m));
        }
    }
    for k in -300..=300 {
        v.push(k as f32);
        v.push(k as f32 / 10.0);
        v.push(k as f32 / 100.0);
        v.push(1.0 / k as f32);
    }
    if thorough(t) {
        for e in 90..=170u32 {
            for m in 0..4096u32 {
                v.push(f32::from_bits(e << 23 | m << 11));
            }
        }
    }
    v.extend(v.clone().iter().map(|x| -x));
    v
}
pub fn reals64(t: Tier) -> Vec<f64> {
    let mut v: Vec<f64> = vec![];
    for e in (0..=2047u64).filter(|e| thorough(t) || *e < 3 || *e > 2044 || *e % 16 == 0 || *e > 940 && *e < 1110) {
        for m in [0u64, 1, 0x8000000000000, 0x5555555555555, 0xfffffffffffff, 0x999999999999a] {
            v.push(f64::from_bits(e << 52 | m));
        }
    }
    for m in lreal_mantissas() {
        v.push(f64::from_bits(1023 << 52 | m));
        v.push(f64::from_bits(1030 << 52 | m));
    }
    for k in -300..=300 {
        v.push(k as f64);
        v.push(k as f64 / 10.0);
        v.push(k as f64 / 100.0);
        v.push(1.0 / k as f64);
    }
    v.extend(v.clone().iter().map(|x| -x));
    v
}
fn c20(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let ts: Vec<i64> = times().into_iter().enumerate().filter(|(i, x)| thorough(t) || i % 5 == 0 || x.unsigned_abs() < 3 || x.unsigned_abs() > i64::MAX as u64 - 2).map(|(_, x)| x).collect();
    for (name, div, f) in fscales_real() {
        let (ts, rs) = (ts.clone(), reals32(t));
        v.push(space(format!("{name}: boundary times x every exponent"), rs.len() as u64, move |i, cx| {
            let b = rs[i as usize];
            cx.sample(|| format!("{name} with {b:e}"));
            for &a in &ts {
                check_scale(name, cx, a, b as f64, true, div, || unsafe { f(a, b) })?;
            }
            Ok(())
        }));
    }
    for (name, div, f) in fscales_lreal() {
        let (ts, rs) = (ts.clone(), reals64(t));
        v.push(space(format!("{name}: boundary times x every exponent"), rs.len() as u64, move |i, cx| {
            let b = rs[i as usize];
            cx.sample(|| format!("{name} with {b:e}"));
            for &a in &ts {
                check_scale(name, cx, a, b, false, div, || unsafe { f(a, b) })?;
            }
            Ok(())
        }));
    }
    v
}

// ---------------------------------------------------------------- C21
/// component values: everything near the valid range, and values equal to valid ones modulo 2^8, 2^16, 2^32
fn components(ty: &IntTy, lo: i128, hi: i128, dense: bool) -> Vec<i128> {
    let mut v: Vec<i128> = if dense { (lo - 3..=hi + 3).collect() } else { vec![lo - 1, lo, lo + 1, (lo + hi) / 2, hi - 1, hi, hi + 1] };
    v.extend([0, -1, ty.lo(), ty.hi(), ty.lo() + 1, ty.hi() - 1]);
    for p in [8, 16, 31, 32, 33, 63, 64] {
        for b in [lo, (lo + hi) / 2, hi] {
            v.extend([b + (1i128 << p), b - (1i128 << p), b + (3i128 << p), (1i128 << p) - b, (1i128 << p) - 1]);
        }
    }
    v.retain(|x| ty.has(*x));
    v.sort();
    v.dedup();
    v
}
pub fn date_model(y: i128, m: i128, d: i128) -> Option<i64> {
    if !(-300_000..=300_000).contains(&y) || !(1..=12).contains(&m) || d < 1 || d > month_len(y as i64, m as i64) as i128 {
        return None;
    }
    fit(days(y as i64, m as i64, d as i64) as i128 * DAYW)
}
pub fn tod_model(h: i128, m: i128, s: i128, ms: i128) -> Option<i64> {
    if !(0..24).contains(&h) || !(0..60).contains(&m) || !(0..60).contains(&s) || !(0..1000).contains(&ms) {
        return None;
    }
    Some((((h * 60 + m) * 60 + s) * 1_000_000_000 + ms * 1_000_000) as i64)
}
fn c21(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    for (name, ty, f) in concat_dates() {
        // every year of the DATE range and beyond x months x days
        let ty: &'static IntTy = Box::leak(Box::new(ty));
        let go = move |cx: &mut Ctx, y: i128, m: i128, d: i128| -> R {
            let w = date_model(y, m, d);
            cx.case(w.is_none() || d > 1);
            cx.describe(|| format!("{name}({y}, {m}, {d})"));
            same(name, || format!("{y}, {m}, {d}"), catch(|| f([y, m, d, 0])), w)
        };
        v.push(space(format!("{name}: every year 1670..2270 x month 0..13 x day 0..32"), 601, move |i, cx| {
            let y = 1670 + i as i128;
            for m in 0..=13 {
                for d in 0..=32 {
                    go(cx, y, m, d)?;
                }
            }
            cx.sample(|| format!("{name} year {y}"));
            Ok(())
        }));
        let ys = {
            let mut y = components(ty, 1677, 2262, false);
            y.extend([1600, 1700, 1900, 2000, 2024, -1, 0, 1, 4, 1970 - 65536, 262142, 262143, -262143, -262144].iter().filter(|x| ty.has(**x)));
            y.sort();
            y.dedup();
            y
        };
        v.push(space(format!("{name}: extreme and aliased components"), ys.len() as u64, move |i, cx| {
            let (ms, ds) = (components(ty, 1, 12, true), components(ty, 1, 31, false));
            for &m in &ms {
                for &d in &ds {
                    go(cx, ys[i as usize], m, d)?;
                }
            }
            Ok(())
        }));
    }
    for (name, ty, f) in concat_tods() {
        let ty: &'static IntTy = Box::leak(Box::new(ty));
        let go = move |cx: &mut Ctx, h: i128, m: i128, s: i128, ms: i128| -> R {
            let w = tod_model(h, m, s, ms);
            cx.case(w != Some(0));
            cx.describe(|| format!("{name}({h}, {m}, {s}, {ms})"));
            same(name, || format!("{h}, {m}, {s}, {ms}"), catch(|| f([h, m, s, ms])), w)
        };
        let top = ty.hi().min(1010);
        v.push(space(format!("{name}: every hour x minute x second x boundary milliseconds"), 24 * 60, move |i, cx| {
            let (h, m) = (i as i128 / 60, i as i128 % 60);
            for s in 0..60 {
                for ms in [0, 1, 9, 10, 99, 100, 127, 499, 500, 998, 999, 1000, 1001] {
                    if ty.has(ms) {
                        go(cx, h, m, s, ms)?;
                    }
                }
            }
            Ok(())
        }));
        v.push(space(format!("{name}: every millisecond value around every boundary of the others"), top as u64 + 1, move |i, cx| {
            for h in [0, 23, 24] {
                for m in [0, 59, 60] {
                    for s in [0, 58, 59, 60, 61] {
                        go(cx, h, m, s, i as i128)?;
                    }
                }
            }
            Ok(())
        }));
        let hs = components(ty, 0, 23, false);
        let full = thorough(t);
        v.push(space(format!("{name}: extreme and aliased components"), hs.len() as u64, move |i, cx| {
            let mut c60 = components(ty, 0, 59, false);
            if !full {
                c60 = c60.into_iter().enumerate().filter(|(k, x)| k % 2 == 0 || *x >= 57 && *x <= 61).map(|x| x.1).collect();
            }
            let msv: Vec<i128> = components(ty, 0, 999, false).into_iter().chain([1000, 1500, 1999, 2000].into_iter().filter(|x| ty.has(*x))).collect();
            for &m in &c60 {
                for &s in &c60 {
                    for &ms in &msv {
                        go(cx, hs[i as usize], m, s, ms)?;
                    }
                }
            }
            cx.sample(|| format!("{name} hour {}", hs[i as usize]));
            Ok(())
        }));
    }
    let tds = tods();
    v.push(space("CONCAT_DATE_TOD: every day x boundary times of day", (DAY_HI - DAY_LO) as u64, move |i, cx| {
        let d = DAY_LO + 1 + i as i64;
        for k in 0..12 {
            let td = match k {
                0 => 0,
                1 => DAY - 1,
                2 => i64::MAX % DAY,
                3 => i64::MAX % DAY + 1,
                _ => tds[(i as usize * 11 + k * 97) % tds.len()],
            };
            let a = d as i128 * DAYW;
            let w = fit(a + td as i128);
            cx.case(td != 0);
            cx.describe(|| format!("CONCAT_DATE_TOD({a}, {td})"));
            same("CONCAT_DATE_TOD", || format!("{a}, {td}"), catch(|| unsafe { CONCAT_DATE_TOD(a as i64, td) }), w)?;
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C22
pub fn parts(x: i64) -> [i64; 7] {
    let (day, tod) = (x.div_euclid(DAY), x.rem_euclid(DAY));
    let (y, m, d) = civil(day);
    [y, m, d, tod / 3_600_000_000_000, tod / 60_000_000_000 % 60, tod / 1_000_000_000 % 60, tod / 1_000_000 % 1000]
}
const DIRTY: u64 = 0xD1D2_D3D4_D5D6_D7D8;
fn check_split(cx: &mut Ctx, name: &'static str, ty: &IntTy, f: fn(i64, &mut [u64; 9]) -> i16, x: i64, want: &[i64]) -> R {
    cx.case(x != 0);
    cx.describe(|| format!("{name}({x})"));
    let mut o = [DIRTY; 9];
    let r = catch(|| f(x, &mut o));
    match r {
        Err(p) => bail!(name, "{name}({x}) aborts: {p}"),
        Ok(r) => ensure!(r == 0, name, "{name}({x}) returns {r}"),
    }
    let mask = if ty.bits == 64 { u64::MAX } else { (1u64 << ty.bits) - 1 };
    for k in 0..9 {
        let w = if k >= 1 && k <= want.len() { (want[k - 1] as u64 & mask) | (DIRTY & !mask) } else { DIRTY };
        ensure!(o[k] == w, name, "{name}({x}): output {k} is {:#x}, expected {} (outputs {:?})", o[k], if k >= 1 && k <= want.len() { want[k - 1].to_string() } else { "untouched memory".into() }, o[1..=want.len()].iter().map(|v| v & mask).collect::<Vec<_>>());
    }
    Ok(())
}
fn check_instant(cx: &mut Ctx, x: i64, t: &Tables) -> R {
    let p = parts(x);
    for (n, ty, f) in &t.0 {
        check_split(cx, n, ty, *f, x, &p[..3])?;
    }
    for (n, ty, f) in &t.1 {
        check_split(cx, n, ty, *f, x.rem_euclid(DAY), &p[3..])?;
    }
    for (n, ty, f) in &t.2 {
        check_split(cx, n, ty, *f, x, &p)?;
    }
    let midnight = fit(x.div_euclid(DAY) as i128 * DAYW);
    same("DATE_AND_TIME_TO_DATE", || x.to_string(), catch(|| unsafe { DATE_AND_TIME_TO_DATE(x) }), midnight)?;
    same("DATE_AND_TIME_TO_TIME_OF_DAY", || x.to_string(), catch(|| unsafe { DATE_AND_TIME_TO_TIME_OF_DAY(x) }), Some(x.rem_euclid(DAY)))?;
    let wd = (x.div_euclid(DAY) + 4).rem_euclid(7);
    same("DAY_OF_WEEK", || x.to_string(), catch(|| unsafe { DAY_OF_WEEK(x) } as i64), Some(wd))?;
    // and back
    if let Some(m) = midnight {
        same("CONCAT_DATE_TOD", || format!("split of {x}"), catch(|| unsafe { CONCAT_DATE_TOD(DATE_AND_TIME_TO_DATE(x), DATE_AND_TIME_TO_TIME_OF_DAY(x)) }), Some(x))?;
        for (n, _, f) in t.3.iter().filter(|c| p[0] as i128 <= c.1.hi()) {
            same(n, || format!("parts of {x}"), catch(|| f([p[0] as i128, p[1] as i128, p[2] as i128, 0])), Some(m))?;
        }
    }
    Ok(())
}
type Sp = (&'static str, IntTy, fn(i64, &mut [u64; 9]) -> i16);
type Co = (&'static str, IntTy, fn([i128; 4]) -> i64);
struct Tables(Vec<Sp>, Vec<Sp>, Vec<Sp>, Vec<Co>);
fn tables() -> Tables {
    Tables(split_dates(), split_tods(), split_dts(), concat_dates())
}
fn c22(t: Tier) -> Vec<Space> {
    let tds = tods();
    let tb = tables();
    let mut v = vec![];
    v.push(space("every day of the range x boundary times of day", (DAY_HI - DAY_LO + 1) as u64, move |i, cx| {
        let d = (DAY_LO + i as i64) as i128 * DAYW;
        let n = if cx.tier == Tier::Thorough { 48 } else { 2 };
        for k in 0..n + 2 {
            let td = match k {
                0 => 0,
                1 => DAY - 1,
                _ => tds[(i as usize * 13 + k * 101) % tds.len()],
            };
            if let Some(x) = fit(d + td as i128) {
                check_instant(cx, x, &tb)?;
            }
        }
        cx.sample(|| format!("day {}", DAY_LO + i as i64));
        Ok(())
    }));
    let tb = tables();
    v.push(space("every second of a day, before and after 1970", 86400, move |s, cx| {
        for day in [0i64, -1, 20000, -50000] {
            check_instant(cx, day * DAY + s as i64 * 1_000_000_000 + [0, 1, 999_999_999, 500_000_000][s as usize % 4], &tb)?;
        }
        Ok(())
    }));
    let tb = tables();
    v.push(space("every millisecond of a second, with the instants around it", 1000, move |s, cx| {
        for base in [0i64, -1_000_000_000, DAY * 365] {
            for d in [-1, 0, 1, 999, 1000, 999_999] {
                check_instant(cx, base + s as i64 * 1_000_000 + d, &tb)?;
            }
        }
        Ok(())
    }));
    let (tb, ts) = (tables(), times());
    v.push(space("boundary instants", ts.len() as u64, move |i, cx| check_instant(cx, ts[i as usize], &tb)));
    let _ = t;
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C18", level: "exploration", exhaustive: true, spaces: c18, assumptions: &[],
            rule: "one case = one call; all pairs of boundary times (powers of two and ten, multiples of every unit, neighbours), operands within 3 ns of every representable limit, every day (quick: every 8th) of the range with boundary offsets; oracle 128-bit integers; non-trivial: both operands non-zero or the call has to abort" },
        Prop { id: "C19", level: "exploration", exhaustive: true, spaces: c19, assumptions: &[],
            rule: "one case = one call of one of 48 overloads; all 8-bit operands (thorough: all 16-bit), boundary values of the wider ones x boundary times, and for each operand the times within 2 ns of the limits; oracle 128-bit integers; non-trivial: result not 0" },
        Prop { id: "C20", level: "exploration", exhaustive: true, spaces: c20, assumptions: &["precision of the operand type: relative 2^-21 (REAL), 2^-50 (LREAL), plus 1 ns; within that distance of the limits of TIME both an abort and a value are accepted"],
            rule: "one case = one call of one of 12 overloads; boundary times x operands of every exponent, small integers, decimal fractions and reciprocals, both signs, infinities and not-a-numbers; oracle: 128-bit fixed point; non-trivial: exact result not 0" },
        Prop { id: "C21", level: "exploration", exhaustive: true, spaces: c21, assumptions: &[],
            rule: "one case = one call; every year 1670..2270 x month 0..13 x day 0..32 and every h:m:s with boundary milliseconds in each of 14 overloads, components that alias valid ones modulo 2^8..2^64 or lie at the extremes of the type, every day for CONCAT_DATE_TOD; independent calendar; non-trivial: not the first of a month / midnight" },
        Prop { id: "C22", level: "exploration", exhaustive: true, spaces: c22, assumptions: &[],
            rule: "one case = one split call; every day of the range x boundary times of day, every second of four days, every millisecond, boundary instants, in all 18 overloads, with the outputs in dirty cells whose other bytes must not change; each split composed back; non-trivial: not the epoch" },
    ]
}
