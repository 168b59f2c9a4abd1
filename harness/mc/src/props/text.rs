//! C13 string buffers and chaining, C14 STRING/WSTRING, C15 number to text, C16 text to number,
//! C17 date/time to text, C29 TIME().
use super::bits::{lreal_mantissas, patterns};
use super::dates::civil;
use super::strings::*;
use crate::big::*;
use crate::core::*;
use crate::ffi::*;
use crate::*;

pub const STR81: usize = 81;
/// Runs a conversion into a dirty 81-byte buffer that ends at an inaccessible page, and reads the text back.
/// `dirt` >= 81: no NUL in the old contents, otherwise a NUL at that place.
pub fn text_of(dirt: usize, f: impl FnOnce(*mut u8) -> i32) -> Result<String, String> {
    let m = mem::<u8>();
    let d = m.dest(STR81);
    if dirt < STR81 {
        unsafe { *d.add(dirt) = 0 };
    }
    let r = catch(|| f(d));
    if !m.canary(d) {
        return Err("wrote before the destination".into());
    }
    let r = r.map_err(|e| format!("aborts: {e}"))?;
    if r != 0 {
        return Err(format!("reports failure {r}"));
    }
    let b = unsafe { std::slice::from_raw_parts(d, STR81) };
    match b.iter().position(|x| *x == 0) {
        None => Err(format!("leaves {} in the destination, without a terminator", u8::show(b))),
        Some(z) => String::from_utf8(b[..z].to_vec()).map_err(|_| "gives ill-formed UTF-8".into()),
    }
}
fn want(key: &str, arg: impl Fn() -> String, dirt: usize, exp: &[&str], f: impl FnOnce(*mut u8) -> i32) -> R {
    match text_of(dirt, f) {
        Ok(s) if exp.contains(&s.as_str()) => Ok(()),
        Ok(s) => Err(fail(key, format!("{key}({}) gives '{s}', expected '{}'", arg(), exp[0]))),
        Err(e) => Err(fail(key, format!("{key}({}) {e}, expected '{}'", arg(), exp[0]))),
    }
}

// ---------------------------------------------------------------- C15
pub fn dec(mut x: u128) -> String {
    let mut v = vec![];
    loop {
        v.push((b'0' + (x % 10) as u8) as char);
        x /= 10;
        if x == 0 {
            break;
        }
    }
    v.iter().rev().collect()
}
pub fn sdec(x: i128) -> String {
    if x < 0 {
        format!("-{}", dec(x.unsigned_abs()))
    } else {
        dec(x as u128)
    }
}
fn check_ints(cx: &mut Ctx, bits: u64, dirt: usize) -> R {
    cx.case(bits > 9);
    cx.describe(|| format!("LINT/LWORD_TO_STRING_EXT({bits:#x})"));
    let (u, s) = (dec(bits as u128), sdec(bits as i64 as i128));
    want("LWORD_TO_STRING_EXT", || u.clone(), dirt, &[&u], |d| unsafe { LWORD_TO_STRING_EXT(bits, d) })?;
    want("LINT_TO_STRING_EXT", || s.clone(), dirt, &[&s], |d| unsafe { LINT_TO_STRING_EXT(bits as i64, d) })
}
/// integers whose decimal text has every digit pattern of interest
pub fn int_set() -> Vec<u64> {
    let mut v: Vec<u64> = patterns(64);
    for b in bounds(64, true) {
        v.push(b as i64 as u64);
    }
    for b in bounds(64, false) {
        v.push(b as u64);
    }
    let mut p = 1u128;
    while p < 1 << 64 {
        for d in 1..=9999u128 {
            if d * p < 1 << 64 {
                v.push((d * p) as u64);
                v.push(((d * p) as u64).wrapping_neg());
            }
        }
        p *= 10;
    }
    v.sort();
    v.dedup();
    v
}
/// the texts `x` may have: fixed below the limit, scientific from it on; two texts for an exact tie
pub fn real_texts(x: f64, limit: f64) -> Vec<String> {
    if x.is_nan() {
        return vec!["NaN".into()];
    }
    let sign = if x.is_sign_negative() { "-" } else { "" };
    let a = f64::from_bits(x.to_bits() & !(1 << 63));
    if a == f64::INFINITY {
        return vec![format!("{sign}inf")];
    }
    let (m, e) = F64.split(a.to_bits());
    if a < limit {
        // round(m * 10^6 * 2^e)
        let n = m as u128 * 1_000_000;
        let mut c = vec![];
        if e >= 0 {
            c.push(n << e);
        } else {
            let s = -e as u32;
            let (q, r) = if s >= 127 { (0, n) } else { (n >> s, n & ((1u128 << s) - 1)) };
            let half = if s >= 127 { u128::MAX } else { 1u128 << (s - 1) };
            if r < half {
                c.push(q)
            } else if r > half {
                c.push(q + 1)
            } else {
                c.push(if q % 2 == 0 { q } else { q + 1 });
                c.push(if q % 2 == 0 { q + 1 } else { q });
            }
        }
        return c.iter().map(|q| format!("{sign}{}.{:0>6}", dec(q / 1_000_000), dec(q % 1_000_000))).collect();
    }
    // here a >= 2^19, so with e < 0 the fraction has at most 52-19 bits
    let (dg, exp10) = if e >= 0 {
        let d = digits_of(m, e);
        let n = d.len() as i64 - 1;
        (d, n)
    } else {
        // m * 2^e = m * 5^-e / 10^-e
        let mut b = Big::from(m as u128);
        for _ in 0..-e {
            b.mul(5);
        }
        let d = b.decimal();
        let n = d.len() as i64 - 1 + e;
        (d, n)
    };
    let mut d = dg;
    while d.len() < 8 {
        d.push(b'0');
    }
    let head: u128 = d[..7].iter().fold(0, |a, c| a * 10 + (*c - b'0') as u128);
    let rest = &d[7..];
    let o = rest[0].cmp(&b'5').then_with(|| if rest[1..].iter().any(|c| *c != b'0') { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal });
    let cands = match o {
        std::cmp::Ordering::Less => vec![head],
        std::cmp::Ordering::Greater => vec![head + 1],
        _ if head % 2 == 0 => vec![head, head + 1],
        _ => vec![head + 1, head],
    };
    cands
        .iter()
        .map(|&q| {
            let (q, n) = if q == 10_000_000 { (1_000_000, exp10 + 1) } else { (q, exp10) };
            format!("{sign}{}.{:0>6}e{n}", q / 1_000_000, dec(q % 1_000_000))
        })
        .collect()
}
fn check_real(cx: &mut Ctx, x: f64, dirt: usize, real: bool) -> R {
    cx.case(x.is_finite() && x != 0.0);
    cx.describe(|| format!("LREAL_TO_STRING_EXT({x:e} = {:#x})", x.to_bits()));
    let t = real_texts(x, 1e14);
    let t: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
    want("LREAL_TO_STRING_EXT", || format!("{x:e}"), dirt, &t, |d| unsafe { LREAL_TO_STRING_EXT(x, d) })?;
    if real {
        let t = real_texts(x, 1e6);
        let t: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
        want("REAL_TO_STRING_EXT", || format!("{x:e}"), dirt, &t, |d| unsafe { REAL_TO_STRING_EXT(x, d) })?;
    }
    Ok(())
}
fn c15(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(space("BYTE, all values x NUL placement in old contents", 256, |i, cx| {
        let s = dec(i as u128);
        for dirt in [STR81, 0, 1, 2, 3, 4, 80] {
            cx.case(i > 9);
            want("BYTE_TO_STRING_EXT", || s.clone(), dirt, &[&s], |d| unsafe { BYTE_TO_STRING_EXT(i as u8, d) })?;
        }
        Ok(())
    }));
    let set = int_set();
    v.push(space("LINT/LWORD structured values", set.len() as u64, move |i, cx| {
        cx.sample(|| format!("LWORD {}", set[i as usize]));
        check_ints(cx, set[i as usize], if i % 2 == 0 { STR81 } else { (i % 81) as usize })
    }));
    let n = if thorough(t) { 1 << 27 } else { 1 << 20 };
    v.push(space("LINT/LWORD small values and their negatives", n / 1024, |i, cx| {
        for k in 0..1024 {
            let x = i * 1024 + k;
            check_ints(cx, x, STR81)?;
            check_ints(cx, x.wrapping_neg(), STR81)?;
        }
        Ok(())
    }));
    v.push(space("LREAL/REAL every exponent x structured mantissas x sign", 2048, move |e, cx| {
        for m in lreal_mantissas() {
            for s in [0, 1u64 << 63] {
                let x = f64::from_bits(s | e << 52 | m);
                check_real(cx, x, (m % 90) as usize, true)?;
            }
        }
        cx.sample(|| format!("exponent field {e}"));
        Ok(())
    }));
    v.push(space("LREAL/REAL sixth-decimal ties n/128 and n/64..n/2^12", 1 << 12, move |i, cx| {
        for k in 0..64u64 {
            let n = i * 64 + k;
            for sh in [6, 7, 8, 9, 12] {
                let x = n as f64 / (1u64 << sh) as f64;
                check_real(cx, x, STR81, true)?;
                check_real(cx, -x, STR81, false)?;
            }
            // seven-digit ties in scientific notation, around every power of ten that keeps them exact
            let q = 10 * (1_000_000 + n * 34) as u64 + 5;
            for z in 7..=14u32 {
                check_real(cx, q as f64 * 10f64.powi(z as i32), STR81, true)?;
            }
        }
        Ok(())
    }));
    let w = if thorough(t) { 20_000u64 } else { 1500 };
    v.push(space("LREAL/REAL neighbourhoods of the powers of ten and of 10^k - 0.5e-6", 31, move |k, cx| {
        for base in [10f64.powi(k as i32 - 9), 10f64.powi(k as i32 - 9) - 0.5e-6, 999999.9999995 * 10f64.powi(k as i32 - 9)] {
            let b = base.to_bits();
            for x in b.saturating_sub(w)..b + w {
                check_real(cx, f64::from_bits(x), STR81, true)?;
                check_real(cx, -f64::from_bits(x), STR81, true)?;
            }
        }
        Ok(())
    }));
    v.push(space("LREAL/REAL micro steps k * 1e-6", 1 << 10, move |i, cx| {
        for k in 0..256u64 {
            let x = (i * 256 + k) as f64 * 1e-6;
            for y in [x, f64::from_bits(x.to_bits() + 1), x + 0.5e-6] {
                check_real(cx, y, STR81, true)?;
            }
        }
        Ok(())
    }));
    if thorough(t) {
        v.push(space("REAL: every exponent x every 16-bit leading mantissa x sign", 1 << 14, move |i, cx| {
            for k in 0..2048u64 {
                for low in [0u32, 1, 0x7f] {
                    let x = f32::from_bits(((i << 18 | k << 7) as u32) | low) as f64;
                    check_real(cx, x, STR81, false)?;
                }
            }
            Ok(())
        }));
    } else {
        v.push(space("REAL: every exponent x every 11-bit leading mantissa x sign", 512, move |i, cx| {
            for k in 0..2048u64 {
                for low in [0u32, 1, 0xfff] {
                    let x = f32::from_bits(((i << 23 | k << 12) as u32) | low) as f64;
                    check_real(cx, x, STR81, false)?;
                }
            }
            Ok(())
        }));
    }
    v
}

// ---------------------------------------------------------------- C16
pub fn int_model(s: &[u8]) -> Option<i128> {
    let (mut d, radix) = match s {
        [b'1', b'6', b'#', r @ ..] => (r, 16),
        [b'0', b'x' | b'X', r @ ..] => (r, 16),
        [b'8', b'#', r @ ..] => (r, 8),
        [b'2', b'#', r @ ..] => (r, 2),
        [b'0', b'b' | b'B', r @ ..] => (r, 2),
        r => (r, 10),
    };
    let mut neg = false;
    if let [c @ (b'+' | b'-'), r @ ..] = d {
        neg = *c == b'-';
        d = r;
    }
    if d.is_empty() {
        return None;
    }
    let mut v: i128 = 0;
    for c in d {
        let x = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return None,
        } as i128;
        if x >= radix {
            return None;
        }
        v = (v * radix + x).min(1 << 100);
    }
    Some(if neg { -v } else { v })
}
fn check_int_text(cx: &mut Ctx, s: &[u8]) -> R {
    let m = mem::<u8>();
    let p = m.source(0, s);
    let w = int_model(s);
    cx.case(w.is_some() || s.len() > 1);
    cx.describe(|| format!("STRING_TO_LINT/DINT({})", u8::show(s)));
    let l = catch(|| unsafe { STRING_TO_LINT(p) }).ok();
    let d = catch(|| unsafe { STRING_TO_DINT(p) }).ok();
    let wl = w.filter(|x| *x >= i64::MIN as i128 && *x <= i64::MAX as i128);
    let wd = w.filter(|x| *x >= i32::MIN as i128 && *x <= i32::MAX as i128);
    ensure!(l.map(|x| x as i128) == wl, "STRING_TO_LINT", "STRING_TO_LINT({}) = {l:?}, expected {wl:?} (None: abort)", u8::show(s));
    ensure!(d.map(|x| x as i128) == wd, "STRING_TO_DINT", "STRING_TO_DINT({}) = {d:?}, expected {wd:?} (None: abort)", u8::show(s));
    ensure!(m.source_intact(0, s), "STRING_TO_LINT", "STRING_TO_LINT/DINT modified its source {}", u8::show(s));
    Ok(())
}
pub enum FloatText {
    No,
    Nan,
    Inf(bool),
    /// negative, digits, exponent
    Dec(bool, Vec<u8>, i64),
}
pub fn float_model(s: &[u8]) -> FloatText {
    let (neg, d) = match s {
        [b'-', r @ ..] => (true, r),
        [b'+', r @ ..] => (false, r),
        r => (false, r),
    };
    let l: Vec<u8> = d.iter().map(|c| c.to_ascii_lowercase()).collect();
    if l == b"nan" {
        return FloatText::Nan;
    }
    if l == b"inf" || l == b"infinity" {
        return FloatText::Inf(neg);
    }
    let mut i = 0;
    let mut digits = vec![];
    let mut k = 0i64;
    while i < d.len() && d[i].is_ascii_digit() {
        digits.push(d[i]);
        i += 1;
    }
    if i < d.len() && d[i] == b'.' {
        i += 1;
        while i < d.len() && d[i].is_ascii_digit() {
            digits.push(d[i]);
            k -= 1;
            i += 1;
        }
    }
    if digits.is_empty() {
        return FloatText::No;
    }
    if i < d.len() && (d[i] | 32) == b'e' {
        i += 1;
        let mut en = false;
        if i < d.len() && (d[i] == b'+' || d[i] == b'-') {
            en = d[i] == b'-';
            i += 1;
        }
        if i == d.len() {
            return FloatText::No;
        }
        let mut e = 0i64;
        while i < d.len() && d[i].is_ascii_digit() {
            e = (e * 10 + (d[i] - b'0') as i64).min(1_000_000);
            i += 1;
        }
        k += if en { -e } else { e };
    }
    if i < d.len() {
        return FloatText::No;
    }
    FloatText::Dec(neg, digits, k)
}
fn check_float_text(cx: &mut Ctx, s: &[u8]) -> R {
    let m = mem::<u8>();
    let p = m.source(0, s);
    cx.describe(|| format!("STRING_TO_LREAL/REAL({})", u8::show(s)));
    let l = catch(|| unsafe { STRING_TO_LREAL(p) }).ok();
    let r = catch(|| unsafe { STRING_TO_REAL(p) }).ok();
    ensure!(m.source_intact(0, s), "STRING_TO_LREAL", "STRING_TO_LREAL/REAL modified its source {}", u8::show(s));
    let w = float_model(s);
    cx.case(!matches!(w, FloatText::No) || s.len() > 1);
    let sh = || String::from_utf8_lossy(s).to_string();
    let (okl, okr) = match &w {
        FloatText::No => (l.is_none(), r.is_none()),
        FloatText::Nan => (l.is_some_and(|x| x.is_nan()), r.is_some_and(|x| x.is_nan())),
        FloatText::Inf(n) => (l == Some(if *n { f64::NEG_INFINITY } else { f64::INFINITY }), r == Some(if *n { f32::NEG_INFINITY } else { f32::INFINITY })),
        FloatText::Dec(n, d, k) => {
            let b = Big::parse(d);
            let (dl, k) = (b.decimal().len() as i64, *k);
            // far outside any format: avoid giant numbers
            let near = |f: Fmt, bits: u64| {
                if b.0.is_empty() {
                    bits == 0
                } else if k + dl > 400 {
                    bits == f.maxbits
                } else if k + dl < -400 {
                    bits == 0
                } else {
                    f.is_nearest(bits, &b, k)
                }
            };
            (
                l.is_some_and(|x| x.is_sign_negative() == *n && near(F64, x.to_bits() & !(1 << 63))),
                r.is_some_and(|x| x.is_sign_negative() == *n && near(F32, (x.to_bits() & !(1 << 31)) as u64)),
            )
        }
    };
    let e = if matches!(w, FloatText::No) { "expected an abort" } else { "which is not the correctly rounded value" };
    ensure!(okl, "STRING_TO_LREAL", "STRING_TO_LREAL('{}') = {l:?}, {e}", sh());
    ensure!(okr, "STRING_TO_REAL", "STRING_TO_REAL('{}') = {r:?}, {e}", sh());
    Ok(())
}
fn nth_bytes(mut i: u64, al: &[u8]) -> Vec<u8> {
    let k = al.len() as u64;
    let (mut n, mut p) = (0, 1);
    while i >= p {
        i -= p;
        p *= k;
        n += 1;
    }
    (0..n).map(|_| al[dig(&mut i, k)]).collect()
}
fn radix_text(mut x: u128, r: u128, upper: bool) -> String {
    let mut v = vec![];
    loop {
        let d = (x % r) as u8;
        v.push(if d < 10 { b'0' + d } else if upper { b'A' + d - 10 } else { b'a' + d - 10 });
        x /= r;
        if x == 0 {
            break;
        }
    }
    v.reverse();
    String::from_utf8(v).unwrap()
}
/// (2m+1) * 2^(e-1) written out in decimal if that takes at most `max` characters
fn midpoint_text(m: u64, e: i64, max: usize) -> Option<String> {
    let (a, q) = (2 * m + 1, e - 1);
    if q >= 0 {
        if q > (max as i64).max(300) {
            return None;
        }
        let s = String::from_utf8(digits_of(a, q)).unwrap();
        (s.len() <= max).then_some(s)
    } else {
        if q < -(max as i64).max(300) {
            return None;
        }
        let mut b = Big::from(a as u128);
        for _ in 0..-q {
            b.mul(5);
        }
        let d = String::from_utf8(b.decimal()).unwrap();
        let n = -q as usize;
        let s = if d.len() > n { format!("{}.{}", &d[..d.len() - n], &d[d.len() - n..]) } else { format!("{d}e-{n}") };
        (s.len() <= max).then_some(s)
    }
}
fn c16(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    const IA: &[u8] = b"01279aFg+-#xXbB68_ .";
    let l = if thorough(t) { 5 } else { 4 };
    v.push(space(format!("STRING_TO_LINT/DINT all texts to length {l} over 20 characters"), n_strings(20, l), move |i, cx| {
        let s = nth_bytes(i, IA);
        cx.sample(|| u8::show(&s));
        check_int_text(cx, &s)
    }));
    const PRE: [&str; 12] = ["16#", "0x", "0X", "8#", "2#", "0b", "0B", "", "-", "+", "10#", "o"];
    let l2 = if thorough(t) { 6 } else { 4 };
    v.push(space(format!("STRING_TO_LINT/DINT every prefix x all digit texts to length {l2}"), n_strings(9, l2) * 12, move |mut i, cx| {
        let p = PRE[dig(&mut i, 12)];
        let mut s = p.as_bytes().to_vec();
        s.extend(nth_bytes(i, b"0178afFG-"));
        check_int_text(cx, &s)
    }));
    // boundary values in every radix and spelling
    let mut nums: Vec<i128> = bounds(66, true);
    nums.extend(bounds(33, true));
    nums.push(i64::MAX as i128 * 10);
    nums.push(i64::MAX as i128 * 16 + 5);
    nums.push(1 << 80);
    nums.sort();
    nums.dedup();
    let nn = nums.len() as u64;
    v.push(space("STRING_TO_LINT/DINT boundary values in every radix, case, sign spelling and zero padding", nn, move |i, cx| {
        let x = nums[i as usize];
        for (pre, r) in [("16#", 16), ("0x", 16), ("0X", 16), ("8#", 8), ("2#", 2), ("0b", 2), ("0B", 2), ("", 10)] {
            for up in [false, true] {
                for pad in [0usize, 1, 5, 30] {
                    for (sg, after) in [("-", true), ("-", false), ("+", true), ("+", false), ("", true)] {
                        if x < 0 && sg != "-" || x >= 0 && sg == "-" && x > 1 {
                            continue;
                        }
                        let d = format!("{}{}", "0".repeat(pad), radix_text(x.unsigned_abs(), r, up));
                        let s = if after { format!("{pre}{sg}{d}") } else { format!("{sg}{pre}{d}") };
                        check_int_text(cx, s.as_bytes())?;
                        for junk in [" ", "L", "#", ".0", "_", "e1"] {
                            if pad == 0 && !up {
                                check_int_text(cx, format!("{s}{junk}").as_bytes())?;
                                check_int_text(cx, format!("{junk}{s}").as_bytes())?;
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }));
    let set = int_set();
    v.push(space("LINT_TO_STRING then STRING_TO_LINT", set.len() as u64, move |i, cx| {
        let x = set[i as usize] as i64;
        check_int_text(cx, sdec(x as i128).as_bytes())?;
        check_int_text(cx, sdec(x as i32 as i128).as_bytes())
    }));
    v.push(space("STRING_TO_LINT/DINT/LREAL/REAL every byte value at the first, middle and last place", 128 * 3, |i, cx| {
        let (c, p) = ((i / 3) as u8, (i % 3) as usize);
        if c == 0 {
            return Ok(());
        }
        for base in ["12", "1", "", "16#1", "1.5", "1e5"] {
            let mut s = base.as_bytes().to_vec();
            let at = [0, s.len() / 2, s.len()][p];
            s.insert(at, c);
            check_int_text(cx, &s)?;
            check_float_text(cx, &s)?;
        }
        Ok(())
    }));
    const FA: &[u8] = b"0195.eE+- ";
    let l = if thorough(t) { 7 } else { 5 };
    v.push(space(format!("STRING_TO_LREAL/REAL all texts to length {l} over 10 characters"), n_strings(10, l), move |i, cx| {
        let s = nth_bytes(i, FA);
        cx.sample(|| u8::show(&s));
        check_float_text(cx, &s)
    }));
    v.push(space("STRING_TO_LREAL/REAL words", 1, move |_, cx| {
        for w in ["nan", "NaN", "NAN", "inf", "Inf", "INF", "infinity", "Infinity", "infinit", "in", "na", "nan(1)", "inff", "1inf", "0x10", "1f", "1d0", "1_0", "1,0", "١", "½", "1e400", "-1e400", "1e-400",
            "1e99999999999", "1e-99999999999", "0e99999999999", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "3.4028235e38", "3.4028236e38", "3.40282356e38", "3.4028235677973366e38",
            "3.40282356779733661637539395458142568447e38", "3.40282356779733661637539395458142568448e38", "5e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.2250738585072011e-308",
            "1.4e-45", "7e-46", "7.0064923216240853546186479164495e-46", "7.0064923216240853546186479164496e-46", "1.1754943508222875e-38", "9007199254740993", "9007199254740991.5", "16777217", "16777217.0000000000000001"] {
            for sg in ["", "-", "+", "--", " "] {
                check_float_text(cx, format!("{sg}{w}").as_bytes())?;
            }
        }
        Ok(())
    }));
    // long numerals: padding zeros, digits beyond any format, at lengths around the usual buffers
    let lens: Vec<usize> = [8usize, 16, 19, 20, 31, 32, 38, 62, 63, 64, 65, 66, 79, 80, 81, 82, 99, 127, 128, 129, 255, 256, 257, 399, 766, 767, 768, 769, 800, 1000, 1074, 2047, 2048, 2049, 4000]
        .into_iter()
        .filter(|n| thorough(t) || *n <= 2049)
        .collect();
    v.push(space("STRING_TO_LINT/DINT/LREAL/REAL long numerals", lens.len() as u64, move |i, cx| {
        let n = lens[i as usize];
        let z = "0".repeat(n);
        for d in ["0", "1", "7", "42", "255", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808"] {
            for sg in ["", "-", "+"] {
                check_int_text(cx, format!("{sg}{z}{d}").as_bytes())?;
                check_int_text(cx, format!("{sg}{d}{z}").as_bytes())?;
            }
        }
        for (pre, d) in [("16#", "7fffffffffffffff"), ("16#", "8000000000000000"), ("0x", "7FFFFFFF"), ("8#", "777777777777777777777"), ("8#", "1000000000000000000000"), ("2#", "1"), ("0b", "101"), ("0B", "11")] {
            check_int_text(cx, format!("{pre}{z}{d}").as_bytes())?;
            check_int_text(cx, format!("{pre}{d}{z}").as_bytes())?;
            check_int_text(cx, format!("{pre}{}", "1".repeat(n)).as_bytes())?;
        }
        for d in ["1", "9", "123456789", "0.5", "1.5", "4.35", "9007199254740993", "16777217", "2.5e-3", "7e300"] {
            let (m, e) = d.split_once('e').unwrap_or((d, "0"));
            let e: i64 = e.parse().unwrap();
            let dot = if m.contains('.') { "" } else { "." };
            for sg in ["", "-"] {
                for s in [
                    format!("{sg}{z}{m}e{e}"),
                    format!("{sg}{m}{dot}{z}e{e}"),
                    format!("{sg}{m}{dot}{z}1e{e}"),
                    format!("{sg}{m}{dot}{}e{e}", "9".repeat(n)),
                    format!("{sg}{m}{}e{}", if dot.is_empty() { "" } else { &z }, e - if dot.is_empty() { 0 } else { n as i64 }),
                    format!("{sg}0.{z}{}e{}", m.replace('.', ""), e + n as i64),
                    format!("{sg}{}", "3".repeat(n)),
                    format!("{sg}0.{}", "6".repeat(n)),
                    format!("{sg}{m}e{}{}", "0".repeat(n), e),
                ] {
                    // exponents keep their sign in front of the padding
                    if !s.contains("0-") {
                        check_float_text(cx, s.as_bytes())?;
                    }
                }
            }
            cx.beat();
        }
        Ok(())
    }));
    v.push(space("STRING_TO_LREAL/REAL exact ties written out in full", 2047 + 255, move |i, cx| {
        let (f, e) = if i < 2047 { (F64, i) } else { (F32, i - 2047) };
        let top = (1u64 << (f.p - 1)) - 1;
        let ms: &[u64] = if thorough(t) { &[0, 1, 2, 3, 0x2aaaaa, 0x555555, top / 3, top / 5 * 3, top - 1, top] } else { &[1, top / 3, top] };
        for m in ms {
            let (mm, ee) = f.split(e << (f.p - 1) | m & top);
            if let Some(s) = midpoint_text(mm, ee, 1400) {
                check_float_text(cx, s.as_bytes())?;
                let (mant, exp) = s.split_once('e').map(|(a, b)| (a, format!("e{b}"))).unwrap_or((&s, String::new()));
                let dot = if mant.contains('.') { "" } else { "." };
                check_float_text(cx, format!("{mant}{dot}1{exp}").as_bytes())?;
                check_float_text(cx, format!("-{mant}{dot}{}1{exp}", "0".repeat(40)).as_bytes())?;
                cx.beat();
            }
        }
        Ok(())
    }));
    // halfway points: exact ties and texts one unit in the last place to either side, for both formats
    for (nm, f, exps) in [("LREAL", F64, 2046u64), ("REAL", F32, 254)] {
        let ms: Vec<u64> = if nm == "LREAL" {
            lreal_mantissas().to_vec()
        } else {
            patterns(32).into_iter().filter(|m| *m < 1 << 23).chain([0x7fffff, 0x555555, 0x2aaaaa]).collect()
        };
        let step = if thorough(t) { 1 } else { 4 };
        v.push(space(format!("STRING_TO_{nm} halfway points and shortest texts, every exponent"), exps + 1, move |e, cx| {
            for m in ms.iter().skip((e % step) as usize).step_by(step as usize) {
                let bits = e << (f.p - 1) | m;
                let (mm, ee) = f.split(bits);
                if let Some(s) = midpoint_text(mm, ee, 79) {
                    check_float_text(cx, s.as_bytes())?;
                    // one digit beyond, just above and just below the tie
                    let (mant, exp) = s.split_once('e').map(|(a, b)| (a, format!("e{b}"))).unwrap_or((&s, String::new()));
                    let dot = if mant.contains('.') { "" } else { "." };
                    check_float_text(cx, format!("{mant}{dot}0001{exp}").as_bytes())?;
                    let mut lower = mant.as_bytes().to_vec();
                    if let Some(p) = lower.iter().rposition(|c| (b'1'..=b'9').contains(c)) {
                        lower[p] -= 1;
                        for c in lower[p + 1..].iter_mut().filter(|c| **c == b'0') {
                            *c = b'9';
                        }
                        let lower = String::from_utf8(lower).unwrap();
                        check_float_text(cx, format!("{lower}{dot}9999{exp}").as_bytes())?;
                    }
                }
                let s = if nm == "LREAL" { format!("{:e}", f64::from_bits(bits)) } else { format!("{:e}", f32::from_bits(bits as u32)) };
                check_float_text(cx, s.as_bytes())?;
                check_float_text(cx, format!("-{s}").as_bytes())?;
                let s17 = if nm == "LREAL" { format!("{:.16e}", f64::from_bits(bits)) } else { format!("{:.8e}", f32::from_bits(bits as u32)) };
                check_float_text(cx, s17.as_bytes())?;
            }
            cx.sample(|| format!("{nm} exponent field {e}"));
            Ok(())
        }));
    }
    v
}

// ---------------------------------------------------------------- C17
const DAY: i64 = 86_400_000_000_000;
pub fn hms(ns: i64) -> String {
    let s = ns / 1_000_000_000;
    let f = ns % 1_000_000_000;
    let frac = if f == 0 {
        String::new()
    } else if f % 1_000_000 == 0 {
        format!(".{:03}", f / 1_000_000)
    } else if f % 1000 == 0 {
        format!(".{:06}", f / 1000)
    } else {
        format!(".{f:09}")
    };
    format!("{:02}:{:02}:{:02}{frac}", s / 3600, s / 60 % 60, s % 60)
}
fn check_dt(cx: &mut Ctx, x: i64) -> R {
    cx.case(x % DAY != 0);
    cx.describe(|| format!("DT_TO_STRING_EXT({x})"));
    let (day, tod) = (x.div_euclid(DAY), x.rem_euclid(DAY));
    let (y, m, d) = civil(day);
    let ds = format!("{y:04}-{m:02}-{d:02}");
    let ts = hms(tod);
    let dirt = (x.rem_euclid(83)) as usize;
    want("DT_TO_STRING_EXT", || x.to_string(), dirt, &[&format!("{ds}-{ts}")], |p| unsafe { DT_TO_STRING_EXT(x, p) })?;
    want("DATE_TO_STRING_EXT", || x.to_string(), dirt, &[&ds], |p| unsafe { DATE_TO_STRING_EXT(x, p) })?;
    want("TOD_TO_STRING_EXT", || tod.to_string(), dirt, &[&ts], |p| unsafe { TOD_TO_STRING_EXT(tod, p) })
}
pub fn time_text(x: i64) -> String {
    let mut u = x.unsigned_abs();
    let mut s = String::new();
    let mut parts = vec![];
    for (n, unit) in [(1000, "ns"), (1000, "us"), (1000, "ms"), (60, "s"), (60, "m"), (24, "h")] {
        parts.push((u % n, unit));
        u /= n;
    }
    parts.push((u, "d"));
    if x < 0 {
        s.push('-');
    }
    for (n, unit) in parts.iter().rev() {
        if *n > 0 {
            s += &format!("{n}{unit}");
        }
    }
    s
}
fn check_time_text(cx: &mut Ctx, x: i64, dirt: usize) -> R {
    cx.case(x != 0);
    cx.describe(|| format!("TIME_TO_STRING_EXT({x})"));
    let w = time_text(x);
    want("TIME_TO_STRING_EXT", || x.to_string(), dirt, &[&w], |p| unsafe { TIME_TO_STRING_EXT(x, p) })
}
pub const DAY_LO: i64 = i64::MIN / DAY - 1; // day of the earliest instant
pub const DAY_HI: i64 = i64::MAX / DAY;
/// times of day at every boundary of every component
pub fn tods() -> Vec<i64> {
    let mut v = vec![];
    for h in [0, 1, 9, 10, 11, 12, 13, 23] {
        for m in [0, 1, 10, 59] {
            for s in [0, 1, 59] {
                for f in [0, 1, 999, 1000, 999_000, 1_000_000, 1_001_000, 100_000_000, 999_000_000, 999_999_000, 999_999_999] {
                    v.push((h * 3600 + m * 60 + s) * 1_000_000_000 + f);
                }
            }
        }
    }
    v
}
fn c17(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let tds = tods();
    let days = (DAY_HI - DAY_LO + 1) as u64;
    v.push(space("DATE/DT/TOD text: every day of the range, boundary times of day in rotation", days, {
        let tds = tds.clone();
        move |i, cx| {
            let day = DAY_LO + i as i64;
            for k in 0..(if cx.tier == Tier::Thorough { 64 } else { 4 }) {
                let tod = tds[(i as usize * 7 + k * 131) % tds.len()];
                if let Some(x) = (day as i128 * DAY as i128 + tod as i128).try_into().ok() {
                    check_dt(cx, x)?;
                }
            }
            if let Ok(x) = i64::try_from(day as i128 * DAY as i128) {
                check_dt(cx, x)?;
                if x > i64::MIN {
                    check_dt(cx, x - 1)?;
                }
            }
            cx.sample(|| format!("day {day}"));
            Ok(())
        }
    }));
    v.push(space("DATE/DT/TOD text: every second of a day", 86400, |s, cx| {
        for day in [0i64, -1, 19000, -106751] {
            for f in [0i64, 1_000_000, 999_999_999] {
                check_dt(cx, day * DAY + s as i64 * 1_000_000_000 + f)?;
            }
        }
        Ok(())
    }));
    v.push(space("DATE/DT/TOD text: every fraction digit pattern", 1000, |a, cx| {
        for b in [0i64, 1, 9, 10, 99, 100, 500, 999] {
            for c in [0i64, 1, 9, 10, 99, 100, 500, 999] {
                check_dt(cx, a as i64 * 1_000_000 + b * 1000 + c)?;
                check_dt(cx, a as i64 * 1_000_000 + b * 1000 + c - DAY)?;
            }
        }
        Ok(())
    }));
    let bs = bounds(64, true);
    v.push(space("DATE/DT/TOD and TIME text: boundary instants", bs.len() as u64, move |i, cx| {
        check_dt(cx, bs[i as usize] as i64)?;
        for d in [STR81, 0, 1, 3, 5] {
            check_time_text(cx, bs[i as usize] as i64, d)?;
        }
        Ok(())
    }));
    // TIME: all combinations of component values (0, boundary digits counts), both signs, all NUL placements
    v.push(space("TIME text: every combination of component boundaries x sign", 6 * 5u64.pow(6), |mut i, cx| {
        let d = [0i64, 1, 9, 10, 99, 106751][dig(&mut i, 6)];
        let h = [0i64, 1, 9, 10, 23][dig(&mut i, 5)];
        let m = [0i64, 1, 9, 10, 59][dig(&mut i, 5)];
        let s = [0i64, 1, 9, 10, 59][dig(&mut i, 5)];
        let ms = [0i64, 1, 10, 100, 999][dig(&mut i, 5)];
        let us = [0i64, 1, 10, 100, 999][dig(&mut i, 5)];
        let ns = [0i64, 1, 10, 100, 999][dig(&mut i, 5)];
        let x = (d as i128 * DAY as i128) + (((h * 60 + m) * 60 + s) as i128 * 1_000_000_000) + (ms * 1_000_000 + us * 1000 + ns) as i128;
        if let Ok(x) = i64::try_from(x) {
            cx.sample(|| format!("TIME {x}"));
            check_time_text(cx, x, STR81)?;
            check_time_text(cx, -x, (x % 34) as usize)?;
        }
        Ok(())
    }));
    v.push(space("TIME text: every value of every component alone and with its neighbours", 1000, |k, cx| {
        let k = k as i64;
        for unit in [1i64, 1000, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, DAY] {
            for off in [0i64, 1, -1, 1_000_001] {
                if let Some(x) = k.checked_mul(unit).and_then(|x| x.checked_add(off)) {
                    check_time_text(cx, x, STR81)?;
                    check_time_text(cx, -x, STR81)?;
                }
            }
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C14
fn check_conv(cx: &mut Ctx, s: &[char]) -> R {
    check_conv_in(cx, mem::<u8>(), mem::<u16>(), s)
}
fn check_conv_in(cx: &mut Ctx, m8: &Mem<u8>, m16: &Mem<u16>, s: &[char]) -> R {
    let (e8, e16) = (u8::enc(s), u16::enc(s));
    cx.case(s.iter().any(|c| *c as u32 > 0x7f));
    cx.describe(|| format!("STRING <-> WSTRING of {}", u8::show(&e8)));
    // STRING -> WSTRING
    let p = m8.source(0, &e8);
    let r = m16.produce(&[], Some(&e16), |_, d| unsafe { STRING_TO_WSTRING_EXT(p, d) });
    r.map_err(|e| fail("STRING_TO_WSTRING_EXT", format!("STRING_TO_WSTRING_EXT({}) {e}", u8::show(&e8))))?;
    ensure!(m8.source_intact(0, &e8), "STRING_TO_WSTRING_EXT", "STRING_TO_WSTRING_EXT modified its source {}", u8::show(&e8));
    let p = m16.source(0, &e16);
    let r = m8.produce(&[], Some(&e8), |_, d| unsafe { WSTRING_TO_STRING_EXT(p, d) });
    r.map_err(|e| fail("WSTRING_TO_STRING_EXT", format!("WSTRING_TO_STRING_EXT({}) {e}", u16::show(&e16))))?;
    ensure!(m16.source_intact(0, &e16), "WSTRING_TO_STRING_EXT", "WSTRING_TO_STRING_EXT modified its source {}", u16::show(&e16));
    Ok(())
}
fn c14(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(space("every Unicode character, alone, repeated and between others", 0x110000 / 256, |i, cx| {
        for cp in i as u32 * 256..(i as u32 + 1) * 256 {
            let Some(c) = char::from_u32(cp) else { continue };
            if cp == 0 {
                continue;
            }
            check_conv(cx, &[c])?;
            check_conv(cx, &['x', c, 'é', c])?;
            check_conv(cx, &['😀', c, '€'])?;
        }
        Ok(())
    }));
    let l = if thorough(t) { 8 } else { 6 };
    v.push(space(format!("all texts to length {l} over 1/2/3/4-byte characters"), n_strings(5, l), |i, cx| {
        let s = nth_string(i, 5, &ALPHA);
        cx.sample(|| format!("{s:?}"));
        check_conv(cx, &s)
    }));
    for kind in 0..4 {
        let ls = lengths::<u16>(kind, t);
        v.push(space(format!("long texts, texture {kind}"), ls.len() as u64, move |i, cx| check_conv(cx, &texture(kind, ls[i as usize]))));
    }
    for kind in 0..4 {
        let ls = huge(t);
        v.push(space(format!("very long texts, texture {kind}"), ls.len() as u64, move |i, cx| check_conv_in(cx, mem_huge::<u8>(), mem_huge::<u16>(), &texture(kind, ls[i as usize]))));
    }
    v.push(space("CHAR_TO_WCHAR all, WCHAR_TO_CHAR all", 65536, |i, cx| {
        cx.case(i > 0x7f);
        let w = i as u16;
        if i < 256 {
            let g = unsafe { CHAR_TO_WCHAR(i as u8) };
            ensure!(g == w, "CHAR_TO_WCHAR", "CHAR_TO_WCHAR({i:#x}) = {g:#x}");
        }
        // half of a surrogate pair is not a character: it becomes U+FFFD
        let c = char::from_u32(i as u32).unwrap_or('\u{fffd}');
        let mut b = [0; 4];
        let e = c.encode_utf8(&mut b).as_bytes()[0];
        match catch(|| unsafe { WCHAR_TO_CHAR(w) }) {
            Ok(g) => ensure!(g == e, "WCHAR_TO_CHAR", "WCHAR_TO_CHAR({w:#x}) = {g:#x}, expected {e:#x}"),
            Err(p) => bail!("WCHAR_TO_CHAR", "WCHAR_TO_CHAR({w:#x}) aborts: {p}"),
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C13: chains over a store of reused variables
const NS: usize = 3;
const NW: usize = 2;
#[derive(Clone)]
struct Store {
    s: [[u8; STR81]; NS],
    w: [[u16; STR81]; NW],
    ms: [Vec<char>; NS],
    mw: [Vec<char>; NW],
}
#[derive(Clone, Copy, Debug)]
enum Num {
    Byte(u8),
    Lword(u64),
    Lint(i64),
    Lreal(f64),
    Real(f64),
    Time(i64),
    Dt(i64),
    Date(i64),
    Tod(i64),
}
#[derive(Clone, Copy, Debug)]
enum Step {
    /// wide, operation, destination, sources
    Edit(bool, Op, usize, usize, usize),
    /// wide, ext, destination, number of arguments, arguments
    Cat(bool, bool, usize, usize, [usize; 3]),
    ToW(usize, usize),
    ToS(usize, usize),
    Num(Num, usize),
}
fn steps() -> Vec<Step> {
    let mut v = vec![];
    for wide in [false, true] {
        let n = if wide { NW } else { NS };
        for d in 0..n {
            for a in (0..n).filter(|a| *a != d) {
                for op in [Op::Left(1), Op::Left(3), Op::Right(2), Op::Mid(2, 2), Op::Del(1, 1), Op::Del(2, 2)] {
                    v.push(Step::Edit(wide, op, d, a, a));
                }
                for b in (0..n).filter(|b| *b != d) {
                    v.push(Step::Edit(wide, Op::Ins(1), d, a, b));
                    v.push(Step::Edit(wide, Op::Rep(1, 1), d, a, b));
                    v.push(Step::Cat(wide, false, d, 2, [a, b, 0]));
                }
                v.push(Step::Cat(wide, true, d, 1, [a, 0, 0]));
                v.push(Step::Cat(wide, true, d, 3, [a, a, a]));
            }
        }
    }
    for a in 0..NS {
        for d in 0..NW {
            v.push(Step::ToW(a, d));
            v.push(Step::ToS(d, a));
        }
    }
    for d in 0..2 {
        for n in [Num::Byte(7), Num::Byte(255), Num::Lword(u64::MAX), Num::Lword(0), Num::Lint(-1), Num::Lint(i64::MIN), Num::Lreal(1.5), Num::Lreal(-1e300), Num::Lreal(0.0), Num::Real(-2.5e6),
            Num::Time(0), Num::Time(3_723_004_005_006), Num::Time(-1), Num::Dt(86_399_999_999_999), Num::Dt(0), Num::Date(-1), Num::Tod(0), Num::Tod(1)] {
            v.push(Step::Num(n, d));
        }
    }
    v
}
struct Vars {
    s: [Guard; NS],
    w: [Guard; NW],
}
impl Vars {
    fn sp(&self, k: usize) -> *mut u8 {
        self.s[k].tail(STR81)
    }
    fn wp(&self, k: usize) -> *mut u16 {
        self.w[k].tail(STR81 * 2) as *mut u16
    }
    fn load(&self, st: &Store) {
        unsafe {
            for k in 0..NS {
                std::ptr::copy_nonoverlapping(st.s[k].as_ptr(), self.sp(k), STR81);
                *self.sp(k).sub(1) = 0xA5;
            }
            for k in 0..NW {
                std::ptr::copy_nonoverlapping(st.w[k].as_ptr(), self.wp(k), STR81);
                *self.wp(k).sub(1) = 0xA5A5;
            }
        }
    }
    fn save(&self, st: &mut Store) {
        unsafe {
            for k in 0..NS {
                std::ptr::copy_nonoverlapping(self.sp(k), st.s[k].as_mut_ptr(), STR81);
            }
            for k in 0..NW {
                std::ptr::copy_nonoverlapping(self.wp(k), st.w[k].as_mut_ptr(), STR81);
            }
        }
    }
    fn edges(&self) -> bool {
        unsafe { (0..NS).all(|k| *self.sp(k).sub(1) == 0xA5) && (0..NW).all(|k| *self.wp(k).sub(1) == 0xA5A5) }
    }
}
fn num_text(n: Num) -> String {
    match n {
        Num::Byte(x) => dec(x as u128),
        Num::Lword(x) => dec(x as u128),
        Num::Lint(x) => sdec(x as i128),
        Num::Lreal(x) => real_texts(x, 1e14).remove(0),
        Num::Real(x) => real_texts(x, 1e6).remove(0),
        Num::Time(x) => time_text(x),
        Num::Dt(x) => {
            let (y, m, d) = civil(x.div_euclid(DAY));
            format!("{y:04}-{m:02}-{d:02}-{}", hms(x.rem_euclid(DAY)))
        }
        Num::Date(x) => {
            let (y, m, d) = civil(x.div_euclid(DAY));
            format!("{y:04}-{m:02}-{d:02}")
        }
        Num::Tod(x) => hms(x),
    }
}
/// ideal result of a step (None: aborts); Err: does not fit a variable, the step is not taken
fn ideal(st: &Store, step: Step) -> Result<Option<Vec<char>>, ()> {
    let r = match step {
        Step::Edit(w, op, _, a, b) => {
            if w {
                model(op, &st.mw[a], &st.mw[b])
            } else {
                model(op, &st.ms[a], &st.ms[b])
            }
        }
        Step::Cat(w, _, _, n, a) => Some(a[..n].iter().flat_map(|k| if w { st.mw[*k].clone() } else { st.ms[*k].clone() }).collect()),
        Step::ToW(a, _) => Some(st.ms[a].clone()),
        Step::ToS(a, _) => Some(st.mw[a].clone()),
        Step::Num(n, _) => Some(num_text(n).chars().collect()),
    };
    let wide = matches!(step, Step::Edit(true, ..) | Step::Cat(true, ..) | Step::ToW(..));
    if let Some(r) = &r {
        let n: usize = r.iter().map(|c| if wide { c.len_utf16() } else { c.len_utf8() }).sum();
        if n > STR81 - 1 {
            return Err(());
        }
    }
    Ok(r)
}
fn exec(v: &Vars, step: Step) -> Result<i32, String> {
    let f8 = u8::fns();
    let f16 = u16::fns();
    catch(|| unsafe {
        match step {
            Step::Edit(false, op, d, a, b) => invoke(&f8, op, &[v.sp(a) as *const u8, v.sp(b)], v.sp(d)),
            Step::Edit(true, op, d, a, b) => invoke(&f16, op, &[v.wp(a) as *const u16, v.wp(b)], v.wp(d)),
            Step::Cat(false, ext, d, n, a) => {
                let av: Vec<*const u8> = a.iter().map(|k| v.sp(*k) as *const u8).collect();
                if ext {
                    CONCAT_EXT__STRING(v.sp(d), n as i32, av.as_ptr())
                } else {
                    CONCAT__STRING(v.sp(d), n as i32, av.as_ptr());
                    0
                }
            }
            Step::Cat(true, ext, d, n, a) => {
                let av: Vec<*const u16> = a.iter().map(|k| v.wp((*k).min(NW - 1)) as *const u16).collect();
                if ext {
                    CONCAT_EXT__WSTRING(v.wp(d), n as i32, av.as_ptr())
                } else {
                    CONCAT__WSTRING(v.wp(d), n as i32, av.as_ptr());
                    0
                }
            }
            Step::ToW(a, d) => STRING_TO_WSTRING_EXT(v.sp(a), v.wp(d)),
            Step::ToS(a, d) => WSTRING_TO_STRING_EXT(v.wp(a), v.sp(d)),
            Step::Num(n, d) => {
                let p = v.sp(d);
                match n {
                    Num::Byte(x) => BYTE_TO_STRING_EXT(x, p),
                    Num::Lword(x) => LWORD_TO_STRING_EXT(x, p),
                    Num::Lint(x) => LINT_TO_STRING_EXT(x, p),
                    Num::Lreal(x) => LREAL_TO_STRING_EXT(x, p),
                    Num::Real(x) => REAL_TO_STRING_EXT(x, p),
                    Num::Time(x) => TIME_TO_STRING_EXT(x, p),
                    Num::Dt(x) => DT_TO_STRING_EXT(x, p),
                    Num::Date(x) => DATE_TO_STRING_EXT(x, p),
                    Num::Tod(x) => TOD_TO_STRING_EXT(x, p),
                }
            }
        }
    })
}
fn step_name(s: Step) -> String {
    match s {
        Step::Edit(w, op, d, a, b) => {
            let p = if w { "W" } else { "S" };
            format!("{p}{d} := {:?} of {p}{a}{}", op, if two(op) { format!(" with {p}{b}") } else { String::new() })
        }
        Step::Cat(w, e, d, n, a) => {
            let p = if w { "W" } else { "S" };
            format!("{p}{d} := CONCAT{}({})", if e { "_EXT" } else { "" }, a[..n].iter().map(|k| format!("{p}{k}")).collect::<Vec<_>>().join(", "))
        }
        Step::ToW(a, d) => format!("W{d} := STRING_TO_WSTRING(S{a})"),
        Step::ToS(a, d) => format!("S{d} := WSTRING_TO_STRING(W{a})"),
        Step::Num(n, d) => format!("S{d} := text of {n:?}"),
    }
}
struct Chain<'a> {
    v: &'a Vars,
    steps: &'a [Step],
    trace: Vec<Step>,
}
impl Chain<'_> {
    fn apply(&mut self, st: &Store, step: Step, cx: &mut Ctx) -> Result<Option<Store>, Fail> {
        let Ok(w) = ideal(st, step) else { return Ok(None) };
        self.v.load(st);
        cx.transitions += 1;
        cx.case(self.trace.len() > 0);
        self.trace.push(step);
        cx.describe(|| self.trace.iter().map(|s| step_name(*s)).collect::<Vec<_>>().join("; "));
        let r = exec(self.v, step);
        let err = |e: String| fail(format!("chain: {}", key_of(step)), format!("after {}: {e}", self.trace.iter().map(|s| step_name(*s)).collect::<Vec<_>>().join("; ")));
        let mut n = st.clone();
        self.v.save(&mut n);
        if !self.v.edges() {
            return Err(err("memory before a variable was modified".into()));
        }
        let (ds, dw) = match step {
            Step::Edit(false, _, d, ..) | Step::Cat(false, _, d, ..) | Step::ToS(_, d) | Step::Num(_, d) => (Some(d), None),
            Step::Edit(true, _, d, ..) | Step::Cat(true, _, d, ..) | Step::ToW(_, d) => (None, Some(d)),
        };
        for k in 0..NS {
            if ds != Some(k) && n.s[k] != st.s[k] {
                return Err(err(format!("S{k}, which is not the destination, was modified")));
            }
        }
        for k in 0..NW {
            if dw != Some(k) && n.w[k] != st.w[k] {
                return Err(err(format!("W{k}, which is not the destination, was modified")));
            }
        }
        match (r, w) {
            (Err(_), None) => {
                self.trace.pop();
                Ok(None)
            }
            (Ok(_), None) => Err(err("the last step should have aborted".into())),
            (Err(p), Some(_)) => Err(err(format!("the last step aborts: {p}"))),
            (Ok(_), Some(w)) => {
                if let Some(d) = ds {
                    let e = u8::enc(&w);
                    let z = n.s[d].iter().position(|x| *x == 0).unwrap_or(STR81);
                    if n.s[d][..z] != e[..] || z == STR81 {
                        return Err(err(format!("S{d} reads {}, expected {}", u8::show(&n.s[d][..z]), u8::show(&e))));
                    }
                    n.ms[d] = w;
                } else {
                    let d = dw.unwrap();
                    let e = u16::enc(&w);
                    let z = n.w[d].iter().position(|x| *x == 0).unwrap_or(STR81);
                    if n.w[d][..z] != e[..] || z == STR81 {
                        return Err(err(format!("W{d} reads {}, expected {}", u16::show(&n.w[d][..z]), u16::show(&e))));
                    }
                    n.mw[d] = w;
                }
                self.trace.pop();
                Ok(Some(n))
            }
        }
    }
    fn dfs(&mut self, st: &Store, depth: usize, cx: &mut Ctx) -> R {
        cx.states += 1;
        if depth == 0 {
            cx.traces += 1;
            return Ok(());
        }
        for k in 0..self.steps.len() {
            if let Some(n) = self.apply(st, self.steps[k], cx)? {
                self.trace.push(self.steps[k]);
                self.dfs(&n, depth - 1, cx)?;
                self.trace.pop();
            }
        }
        Ok(())
    }
}
fn key_of(s: Step) -> &'static str {
    match s {
        Step::Edit(..) => "edit",
        Step::Cat(..) => "CONCAT",
        Step::ToW(..) => "STRING_TO_WSTRING_EXT",
        Step::ToS(..) => "WSTRING_TO_STRING_EXT",
        Step::Num(n, _) => match n {
            Num::Byte(_) => "BYTE_TO_STRING_EXT",
            Num::Lword(_) => "LWORD_TO_STRING_EXT",
            Num::Lint(_) => "LINT_TO_STRING_EXT",
            Num::Lreal(_) => "LREAL_TO_STRING_EXT",
            Num::Real(_) => "REAL_TO_STRING_EXT",
            Num::Time(_) => "TIME_TO_STRING_EXT",
            Num::Dt(_) => "DT_TO_STRING_EXT",
            Num::Date(_) => "DATE_TO_STRING_EXT",
            Num::Tod(_) => "TOD_TO_STRING_EXT",
        },
    }
}
fn initial(kind: u64) -> Store {
    let mut st = Store { s: [[0; STR81]; NS], w: [[0; STR81]; NW], ms: Default::default(), mw: Default::default() };
    if kind > 0 {
        // every variable holds a text, and stale non-zero data behind its terminator
        let texts = ["abé€😀", "12", "x", "w€😀z", "é"];
        for k in 0..NS {
            st.ms[k] = texts[k].chars().collect();
            for (i, b) in st.s[k].iter_mut().enumerate() {
                *b = b'Q' + (i % 7) as u8;
            }
            let e = u8::enc(&st.ms[k]);
            st.s[k][..e.len()].copy_from_slice(&e);
            st.s[k][e.len()] = 0;
        }
        for k in 0..NW {
            st.mw[k] = texts[NS + k].chars().collect();
            for (i, b) in st.w[k].iter_mut().enumerate() {
                *b = 0x4e00 + (i % 7) as u16;
            }
            let e = u16::enc(&st.mw[k]);
            st.w[k][..e.len()].copy_from_slice(&e);
            st.w[k][e.len()] = 0;
        }
    }
    st
}
fn c13(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let n = steps().len() as u64;
    let depth = if thorough(t) { 4 } else { 3 };
    v.push(space(format!("all chains of {depth} calls over 3 STRING and 2 WSTRING variables, {n} calls, 2 initial stores"), n * n * 2, move |mut i, cx| {
        thread_local! { static V: Vars = Vars { s: std::array::from_fn(|_| Guard::new(STR81)), w: std::array::from_fn(|_| Guard::new(STR81 * 2)) }; }
        let kind = dig(&mut i, 2) as u64;
        let (a, b) = (dig(&mut i, n), dig(&mut i, n));
        let steps = steps();
        V.with(|vars| {
            let mut c = Chain { v: vars, steps: &steps, trace: vec![] };
            let st = initial(kind);
            let Some(s1) = c.apply(&st, steps[a], cx)? else { return Ok(()) };
            c.trace.push(steps[a]);
            let Some(s2) = c.apply(&s1, steps[b], cx)? else { return Ok(()) };
            c.trace.push(steps[b]);
            cx.sample(|| format!("{}; {}; ..", step_name(steps[a]), step_name(steps[b])));
            c.dfs(&s2, depth - 2, cx)
        })
    }));
    // termination whatever the destination held, for every producer of an 81-byte text, at every length it can have
    v.push(space("text producers over every NUL placement of the old contents", 82, |i, cx| {
        for s in steps() {
            if let Step::Num(n, _) = s {
                cx.case(true);
                let w = num_text(n);
                let k = format!("chain: {}", key_of(s));
                want(&k, || format!("{n:?}"), i as usize, &[&w], |d| unsafe {
                    match n {
                        Num::Byte(x) => BYTE_TO_STRING_EXT(x, d),
                        Num::Lword(x) => LWORD_TO_STRING_EXT(x, d),
                        Num::Lint(x) => LINT_TO_STRING_EXT(x, d),
                        Num::Lreal(x) => LREAL_TO_STRING_EXT(x, d),
                        Num::Real(x) => REAL_TO_STRING_EXT(x, d),
                        Num::Time(x) => TIME_TO_STRING_EXT(x, d),
                        Num::Dt(x) => DT_TO_STRING_EXT(x, d),
                        Num::Date(x) => DATE_TO_STRING_EXT(x, d),
                        Num::Tod(x) => TOD_TO_STRING_EXT(x, d),
                    }
                })?;
            }
        }
        Ok(())
    }));
    // sources and destinations of exactly the needed size, both encodings
    for kind in 0..4usize {
        v.push(space(format!("exact-size buffers, texture {kind}"), 81, move |i, cx| {
            let a = texture(kind, i as usize);
            exact::<u8>(cx, &a)?;
            exact::<u16>(cx, &a)
        }));
    }
    v
}
fn exact<U: Unit>(cx: &mut Ctx, a: &[char]) -> R {
    let (f, m) = (U::fns(), mem::<U>());
    let n = a.len() as i32;
    let ea = U::enc(a);
    let b = ['é', '1'];
    let eb = U::enc(&b);
    for k in 0..=n {
        for op in [Op::Left(k), Op::Right(k), Op::Mid(n - k, k), Op::Mid(1, k), Op::Ins(k), Op::Del(1, k), Op::Del(n - k, k), Op::Rep(1, k), Op::Rep(n - k, k), Op::Left(n + 1 + k), Op::Mid(k + 2, n), Op::Del(n + 1, k), Op::Rep(n + 1, k), Op::Ins(n + 1 + k)] {
            check_op(cx, &f, m, op, a, &b, &ea, &eb)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C29
/// TZ value, offset in seconds at a UTC instant
type Zone = (&'static str, fn(i64) -> i64);
fn last_sunday_utc(year: i64, month: i64) -> i64 {
    // day number of the last Sunday of a 31-day month
    let d = super::dates::days(year, month, 31);
    d - (d + 4).rem_euclid(7)
}
const ZONES: &[Zone] = &[
    ("UTC0", |_| 0),
    ("IST-5:30", |_| 19800),
    ("NPT-5:45", |_| 20700),
    ("NST3:30", |_| -12600),
    ("LINT-14", |_| 50400),
    ("AoE12", |_| -43200),
    ("XXX-0:00:01", |_| 1),
    ("YYY0:00:01", |_| -1),
    ("CET-1CEST,M3.5.0,M10.5.0/3", |t| {
        let (y, _, _) = civil(t.div_euclid(86400));
        let (a, b) = (last_sunday_utc(y, 3) * 86400 + 3600, last_sunday_utc(y, 10) * 86400 + 3600);
        if t >= a && t < b {
            7200
        } else {
            3600
        }
    }),
];
fn check_time(cx: &mut Ctx, zone: usize, secs: i64, ns: i64) -> R {
    let (tz, off) = ZONES[zone];
    cx.case(off(secs) != 0);
    cx.describe(|| format!("TIME() at {secs}.{ns:09} UTC, TZ={tz}"));
    set_real(secs * 1_000_000_000 + ns);
    let g = catch(|| unsafe { TIME() });
    clock_off();
    let w = (secs + off(secs)).rem_euclid(86400) * 1_000_000_000 + ns;
    ensure!(g == Ok(w), "TIME", "TIME() at {secs}.{ns:09}s UTC with TZ={tz} gives {g:?}, expected {w}");
    Ok(())
}
fn c29(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    for z in 0..ZONES.len() {
        let set = move || {
            thread_local! { static CUR: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }
            if CUR.with(|c| c.replace(z)) != z {
                std::env::set_var("TZ", ZONES[z].0);
                // let the time zone cache of the process notice (it looks once per second of real clock)
                for k in [0i64, 1_000_000_000_000, 0] {
                    set_real(k);
                    let _ = catch(|| unsafe { TIME() });
                }
                clock_off();
            }
        };
        let nanos: &'static [i64] = &[0, 1, 999, 1000, 499_999_999, 500_000_000, 999_999_999];
        v.push(space(format!("TIME() {}: every second around midnight and transitions, every day 1970..2105 at boundary seconds", ZONES[z].0), 49_400, move |d, cx| {
            set();
            let d = d as i64;
            // seconds at which the local day, hour or minute changes
            for s in [0, 1, 3599, 3600, 43199, 43200, 86399] {
                for near in [0i64, 1] {
                    let u = d * 86400 + s;
                    let o = (ZONES[z].1)(u) * near;
                    if u - o >= 0 {
                        let k = (d as usize + s as usize) % nanos.len();
                        check_time(cx, z, u - o, nanos[k])?;
                    }
                }
            }
            cx.sample(|| format!("day {d}, zone {}", ZONES[z].0));
            Ok(())
        }));
        v.push(space(format!("TIME() {}: every second of three days", ZONES[z].0), 3 * 86400 / 64, move |i, cx| {
            set();
            for k in 0..64 {
                let s = i as i64 * 64 + k;
                for base in [20543i64, 20752] {
                    for ns in [0, 999_999_999] {
                        check_time(cx, z, base * 86400 + s, ns)?;
                    }
                }
            }
            Ok(())
        }));
    }
    v.push(space("TIME() every nanosecond digit pattern", if thorough(t) { 1000 } else { 200 }, |i, cx| {
        let ms = if cx.tier == Tier::Thorough { i as i64 } else { i as i64 * 5 + 4 };
        for us in 0..1000i64 {
            for n in [0i64, 1, 500, 999] {
                // whatever the zone in force: only the fraction is compared
                set_real(1_800_000_000_000_000_000 + ms * 1_000_000 + us * 1000 + n);
                cx.case(true);
                let g = catch(|| unsafe { TIME() });
                clock_off();
                ensure!(g.as_ref().is_ok_and(|g| g % 1_000_000_000 == ms * 1_000_000 + us * 1000 + n), "TIME", "TIME() at fraction {ms}ms {us}us {n}ns gives {g:?}");
            }
        }
        Ok(())
    }));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", level: "model_checking", exhaustive: true, spaces: c13,
            assumptions: &["results that do not fit the destination variable are outside the property (steps not taken)", "source and destination are different variables, as in the ST wrappers"],
            rule: "states: contents of 3 STRING and 2 WSTRING variables (81 units each, guard page behind, canary before); transitions: real calls of every string producer; all chains to the depth bound from two initial stores; non-trivial: a call that reads what an earlier call wrote or whose destination holds old contents" },
        Prop { id: "C14", level: "exploration", exhaustive: true, spaces: c14, assumptions: &["sources are well-formed UTF-8/UTF-16", "the result fits the destination"],
            rule: "one case = one text converted in both directions; every Unicode character in three contexts, all texts to the length bound over 1/2/3/4-byte characters, four textures of long texts, all CHAR and WCHAR values; non-trivial: contains a non-ASCII character" },
        Prop { id: "C15", level: "exploration", exhaustive: true, spaces: c15, assumptions: &[],
            rule: "one case = one value; every BYTE, 64-bit integers of every digit pattern d*10^k and every bit pattern of two bits/runs, every LREAL exponent x structured mantissas x sign, exact ties, neighbourhoods of powers of ten (thorough: every REAL); expected text by exact integer arithmetic; non-trivial: not a single digit / not zero or non-finite" },
        Prop { id: "C16", level: "exploration", exhaustive: true, spaces: c16, assumptions: &[],
            rule: "one case = one text under both conversions; all texts to the length bound over the alphabet of the grammar, boundary integers in every radix/sign/case/padding, every LREAL and REAL exponent: exact halfway points and texts a hair above and below, shortest and 17-digit texts; oracle: exact big-integer comparison with the rounding interval; non-trivial: a number, or a non-number of more than one character" },
        Prop { id: "C17", level: "exploration", exhaustive: true, spaces: c17, assumptions: &[],
            rule: "one case = one value; every day of the DT range x rotating boundary times of day, every second of four days, every combination of TIME component boundaries with both signs; expected text from an independent calendar; non-trivial: not midnight / not zero" },
        Prop { id: "C29", level: "exploration", exhaustive: true, spaces: c29, assumptions: &["the harness owns the realtime clock at the OS boundary (clock_gettime) and sets TZ to POSIX rules; instants from 1970 on"],
            rule: "one case = one call at one faked instant and zone; 9 zones (whole, half, quarter hour, one second, DST) x every day of 135 years at boundary seconds, every second of three days; non-trivial: zone offset not zero" },
    ]
}
