//! The declared (Structured Text) half of the library: C31 conversions between integers, bit strings and BOOL,
//! C32 conversions from and to REAL/LREAL, ...
use crate::core::*;
use crate::lang::{Out, Run};
use crate::props::bits::{lreal_mantissas, patterns};
use crate::*;
use std::cell::{OnceCell, RefCell};
use std::rc::Rc;

/// A client program, lowered together with the library when first needed.
#[derive(Clone)]
pub struct Client {
    src: Rc<String>,
    run: Rc<OnceCell<RefCell<Option<Run>>>>,
}
impl Client {
    pub fn new(src: impl Into<String>) -> Client {
        Client { src: Rc::new(src.into()), run: Rc::new(OnceCell::new()) }
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut Run) -> T) -> Option<T> {
        let c = self.run.get_or_init(|| RefCell::new(Run::new(&self.src)));
        c.borrow_mut().as_mut().map(f)
    }
    /// Runs `f` on the machine with the named functions; counts what cannot be read by the front end.
    pub fn using(&self, cx: &mut Ctx, names: &[&str], f: impl FnOnce(&mut Run, &[usize], &mut Ctx) -> R) -> R {
        let r = self.with(|r| {
            let mut ix = vec![];
            for n in names {
                match r.index(n) {
                    Some(i) => ix.push(i),
                    None => {
                        cx.count(&format!("not modelled: {n}"), 1);
                        return Ok(());
                    }
                }
            }
            f(r, &ix, cx)
        });
        match r {
            Some(r) => r,
            None => {
                cx.count("sources not readable by the front end", 1);
                Ok(())
            }
        }
    }
}
/// The value of a call that must deliver one.
#[macro_export]
macro_rules! value {
    ($run:expr, $i:expr, $args:expr, $key:expr, $what:expr) => {
        match $run.call($i, $args, std::ptr::null_mut()) {
            $crate::lang::Out::Val(v) => v,
            $crate::lang::Out::Abort => bail!($key, "{} aborts", $what),
            $crate::lang::Out::Bad(m) => bail!($key, "{}: {m}", $what),
            $crate::lang::Out::Skip => return Ok(()),
        }
    };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct T {
    pub name: &'static str,
    pub bits: u32,
    pub signed: bool,
    /// 0 BOOL, 1 bit string or character, 2 integer, 3.. date and time (one number per canonical type)
    pub kind: u8,
}
const fn ty(name: &'static str, bits: u32, signed: bool, kind: u8) -> T {
    T { name, bits, signed, kind }
}
pub const TYPES: &[T] = &[
    ty("BOOL", 1, false, 0),
    ty("BYTE", 8, false, 1),
    ty("WORD", 16, false, 1),
    ty("DWORD", 32, false, 1),
    ty("LWORD", 64, false, 1),
    ty("CHAR", 8, false, 1),
    ty("WCHAR", 16, false, 1),
    ty("SINT", 8, true, 2),
    ty("INT", 16, true, 2),
    ty("DINT", 32, true, 2),
    ty("LINT", 64, true, 2),
    ty("USINT", 8, false, 2),
    ty("UINT", 16, false, 2),
    ty("UDINT", 32, false, 2),
    ty("ULINT", 64, false, 2),
    ty("TIME", 64, true, 3),
    ty("LTIME", 64, true, 3),
    ty("DATE", 64, true, 4),
    ty("LDATE", 64, true, 4),
    ty("DT", 64, true, 5),
    ty("LDT", 64, true, 5),
    ty("TOD", 64, true, 6),
    ty("LTOD", 64, true, 6),
];
/// the 64-bit pattern of a value as the machine passes it
pub fn ext(t: &T, x: u64) -> u64 {
    if t.bits == 64 {
        x
    } else if t.signed {
        ((x << (64 - t.bits)) as i64 >> (64 - t.bits)) as u64
    } else {
        x & ((1 << t.bits) - 1)
    }
}
pub fn show(t: &T, x: u64) -> String {
    if t.signed {
        format!("{}", x as i64)
    } else {
        format!("{x}")
    }
}
fn conv_model(a: &T, b: &T, x: u64) -> u64 {
    if b.kind == 0 {
        return if a.kind == 1 { x & 1 } else { (x != 0) as u64 };
    }
    ext(b, x)
}

fn c31(t: Tier) -> Vec<Space> {
    let cl = Client::new("");
    let mut v = vec![];
    for a in TYPES {
        for b in TYPES {
            if a == b || a.kind >= 3 && b.kind >= 3 && a.kind != b.kind {
                continue;
            }
            // characters between themselves change the character set (C14)
            if a.name.ends_with("CHAR") && b.name.ends_with("CHAR") {
                continue;
            }
            let name = format!("{}_TO_{}", a.name, b.name);
            if !names().contains(&name) {
                continue;
            }
            let cl = cl.clone();
            let pats = if a.bits <= 16 { (0..1u64 << a.bits).collect() } else { patterns(a.bits) };
            let deep: u64 = if a.bits <= 16 { 0 } else if thorough(t) { 1 << 24 } else { 1 << 14 };
            let total = pats.len() as u64 + deep;
            const CH: u64 = 1 << 14;
            v.push(space(name.clone(), total.div_ceil(CH), move |i, cx| {
                cl.using(cx, &[&name], |run, ix, cx| {
                    let (mut last, mut res) = (0, 0);
                    let (mut n, mut nt) = (0u64, 0u64);
                    for k in i * CH..((i + 1) * CH).min(total) {
                        let x = if k < pats.len() as u64 {
                            pats[k as usize]
                        } else {
                            // an evenly spaced lattice of the type
                            (k - pats.len() as u64) * ((u64::MAX >> (64 - a.bits)) / deep) + (k & 7)
                        };
                        let x = ext(a, x);
                        let g = value!(run, ix[0], &[x], &name, format!("{name}({})", show(a, x)));
                        let w = conv_model(a, b, x);
                        ensure!(g == w, &name, "{name}({}) = {}, expected {}", show(a, x), show(b, g), show(b, w));
                        n += 1;
                        nt += (x > 1) as u64;
                        (last, res) = (x, g);
                    }
                    cx.evals += n;
                    cx.nontrivial += nt;
                    cx.sample(|| format!("{name}({}) = {}", show(a, last), show(b, res)));
                    Ok(())
                })
            }));
        }
    }
    v
}

/// the functions of the library that this front end can run
pub fn names() -> &'static std::collections::HashSet<String> {
    thread_local! { static N: OnceCell<&'static std::collections::HashSet<String>> = const { OnceCell::new() }; }
    N.with(|n| {
        *n.get_or_init(|| {
            let mut s = std::collections::HashSet::new();
            if let Some(p) = crate::lang::program("") {
                for u in &p.pous {
                    if u.kind == st::Kind::Function {
                        s.insert(u.name.to_ascii_uppercase());
                    }
                }
            }
            Box::leak(Box::new(s))
        })
    })
}


// ---------------------------------------------------------------- C32
/// the integer nearest to x, halves away from zero (or x with its fraction dropped); None: not a number or huge
fn nearest_int(x: f64, trunc: bool) -> Option<i128> {
    let b = x.to_bits();
    let e = (b >> 52 & 2047) as i32;
    if e >= 1023 + 64 {
        return None;
    }
    if e < 1022 {
        return Some(0);
    }
    let m = (b & ((1 << 52) - 1) | 1 << 52) as i128;
    let s = e - 1075;
    let v = if s >= 0 {
        m << s
    } else if trunc {
        m >> -s
    } else {
        // m / 2^-s, plus one half, rounded down
        (m + (1i128 << (-s - 1))) >> -s
    };
    Some(if b >> 63 == 1 { -v } else { v })
}
/// v rounded to `mant` significant bits, ties to even
fn nearest_float(v: i128, mant: u32) -> f64 {
    let m = v.unsigned_abs();
    let bits = 128 - m.leading_zeros();
    let mut q = m;
    let mut s = 0;
    if bits > mant {
        s = bits - mant;
        q = m >> s;
        let r = m - (q << s);
        let half = 1u128 << (s - 1);
        if r > half || r == half && q & 1 == 1 {
            q += 1;
        }
    }
    let mut f = q as u64 as f64;
    for _ in 0..s {
        f *= 2.0;
    }
    if v < 0 {
        -f
    } else {
        f
    }
}
/// the REAL nearest to x, by integer arithmetic on its fields
fn nearest_real(x: f64) -> u32 {
    let b = x.to_bits();
    let sign = ((b >> 63) as u32) << 31;
    let e = (b >> 52 & 2047) as i32;
    let m = b & ((1 << 52) - 1);
    if e == 2047 {
        return if m != 0 { 0x7fc0_0000 } else { sign | 0x7f80_0000 };
    }
    if e < 896 - 24 {
        return sign;
    }
    let m = m | 1 << 52;
    // bits dropped: 29 for a normal result, more for a subnormal one
    let drop = if e >= 897 { 29 } else { 29 + (897 - e) as u32 };
    let q = m >> drop;
    let r = m & ((1 << drop) - 1);
    let half = 1u64 << (drop - 1);
    let up = (r > half || r == half && q & 1 == 1) as u64;
    let base = if e >= 897 { ((e - 897) as u64) << 23 } else { 0 };
    let v = base + q + up;
    if v >= 255 << 23 {
        sign | 0x7f80_0000
    } else {
        sign | v as u32
    }
}
/// values next to integers, halves and powers of two
fn around(mut f: impl FnMut(f64) -> R) -> R {
    let mut at = |x: f64| -> R {
        let b = x.to_bits();
        for d in -3i64..=3 {
            f(f64::from_bits(b.wrapping_add(d as u64)))?;
            f(-f64::from_bits(b.wrapping_add(d as u64)))?;
        }
        Ok(())
    };
    for p in 0..66 {
        let v = 2f64.powi(p);
        for k in [-2.5, -2.0, -1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5] {
            if v + k > 0.0 {
                at(v + k)?;
            }
        }
    }
    for k in 0..2000 {
        at(k as f64 * 0.5 + 0.25 * (k % 2) as f64 + 0.5)?;
        at(k as f64 + 0.5)?;
    }
    Ok(())
}
fn c32(t: Tier) -> Vec<Space> {
    let th = thorough(t);
    let cl = Client::new(
        "FUNCTION TR : LINT VAR_INPUT x : REAL; END_VAR TR := TRUNC(x); END_FUNCTION
         FUNCTION TL : LINT VAR_INPUT x : LREAL; END_VAR TL := TRUNC(x); END_FUNCTION",
    );
    let mut v = vec![];
    let mut targets: Vec<(String, T, bool, bool)> = vec![];
    for b in TYPES {
        if b.kind == 2 || b.name == "TIME" || b.name == "LTIME" {
            for a in ["REAL", "LREAL"] {
                targets.push((format!("{a}_TO_{}", b.name), *b, a == "REAL", false));
            }
        }
    }
    let lint = *TYPES.iter().find(|t| t.name == "LINT").unwrap();
    targets.push(("TR".into(), lint, true, true));
    targets.push(("TL".into(), lint, false, true));
    for (name, b, single, trunc) in targets {
        if !trunc && !names().contains(&name) {
            continue;
        }
        let label = if trunc { format!("TRUNC of {}", if single { "REAL" } else { "LREAL" }) } else { name.clone() };
        let one = {
            let label = label.clone();
            move |run: &mut Run, f: usize, x: f64, cx: &mut Ctx| -> R {
                let (lo, hi) = if b.signed { (-(1i128 << (b.bits - 1)), (1i128 << (b.bits - 1)) - 1) } else { (0, (1i128 << b.bits) - 1) };
                // what is outside the range of the result is not specified
                let Some(w) = nearest_int(x, trunc).filter(|w| *w >= lo && *w <= hi) else { return Ok(()) };
                // neither is a negative value of an unsigned type
                if !b.signed && x < 0.0 {
                    return Ok(());
                }
                let arg = if single { (x as f32).to_bits() as u64 } else { x.to_bits() };
                let g = value!(run, f, &[arg], &label, format!("{label}({x:e})"));
                let g = if b.signed { g as i64 as i128 } else { g as i128 };
                ensure!(g == w, &label, "{label}({x:e}) = {g}, expected {w}");
                cx.evals += 1;
                cx.nontrivial += (w != 0) as u64;
                Ok(())
            }
        };
        let one2 = one.clone();
        let (cl2, name2) = (cl.clone(), name.clone());
        v.push(space(format!("{label}: around integers, halves and powers of two"), 1, move |_, cx| {
            cl2.using(cx, &[&name2], |run, ix, cx| around(|x| one2(run, ix[0], if single { x as f32 as f64 } else { x }, cx)))
        }));
        let (cl, label) = (cl.clone(), label);
        if single {
            // exponents whose magnitude can be in range, both signs
            let step = if !th { 1 << 13 } else if b.bits == 64 || trunc { 1 } else { 1 << 5 };
            v.push(space(format!("{label}: every exponent x mantissas{}", if step == 1 { ", all" } else { "" }), 512, move |i, cx| {
                cl.using(cx, &[&name], |run, ix, cx| {
                    for m in (0..1u32 << 23).step_by(step) {
                        let m = m | (m >> 13) & (step as u32 - 1);
                        one(run, ix[0], f32::from_bits((i as u32) << 23 | m) as f64, cx)?;
                    }
                    cx.sample(|| format!("{label}: exponent field {}", i & 255));
                    Ok(())
                })
            }));
        } else {
            v.push(space(format!("{label}: every exponent x mantissa patterns"), 512, move |i, cx| {
                cl.using(cx, &[&name], |run, ix, cx| {
                    let (s, e) = (i & 1, 1000 + (i >> 1));
                    let ms = lreal_mantissas();
                    for m in ms {
                        one(run, ix[0], f64::from_bits(s << 63 | e << 52 | m), cx)?;
                    }
                    // a lattice of mantissas
                    let n: u64 = if th { 1 << 14 } else { 256 };
                    for k in 0..n {
                        one(run, ix[0], f64::from_bits(s << 63 | e << 52 | (k * ((1 << 52) / n) + (k & 3))), cx)?;
                    }
                    cx.sample(|| format!("{label}: exponent field {e}"));
                    Ok(())
                })
            }));
        }
    }
    // integers and times to REAL and LREAL
    for a in TYPES {
        if a.kind != 2 && a.name != "TIME" && a.name != "LTIME" {
            continue;
        }
        for single in [true, false] {
            let name = format!("{}_TO_{}", a.name, if single { "REAL" } else { "LREAL" });
            if !names().contains(&name) {
                continue;
            }
            let cl = cl.clone();
            let mut pats = if a.bits <= 16 { (0..1u64 << a.bits).collect() } else { patterns(a.bits) };
            if a.bits > 16 {
                // values around every tie of the target format
                let mant = if single { 24 } else { 53 };
                for e in mant + 1..=a.bits {
                    let ulp = 1u64 << (e - mant);
                    let top = if e == 64 { 1u64 << 63 } else { 1u64 << (e - 1) };
                    for k in (0..64u64).chain([1 << 10, (1 << 20) + 1, (1u64 << (mant - 1)) - 1, (1u64 << (mant - 1)) - 2]) {
                        let at = top.wrapping_add(k.wrapping_mul(ulp)).wrapping_add(ulp / 2);
                        for d in -2i64..=2 {
                            let x = at.wrapping_add(d as u64);
                            pats.push(x);
                            pats.push(x.wrapping_neg());
                        }
                    }
                }
            }
            let deep: u64 = if a.bits <= 16 { 0 } else if th { 1 << 24 } else { 1 << 15 };
            let total = pats.len() as u64 + deep;
            const CH: u64 = 1 << 14;
            v.push(space(name.clone(), total.div_ceil(CH), move |i, cx| {
                cl.using(cx, &[&name], |run, ix, cx| {
                    for k in i * CH..((i + 1) * CH).min(total) {
                        let x = if k < pats.len() as u64 { pats[k as usize] } else { (k - pats.len() as u64) * ((u64::MAX >> (64 - a.bits)) / deep) + (k & 7) };
                        let x = ext(a, x);
                        let g = value!(run, ix[0], &[x], &name, format!("{name}({})", show(a, x)));
                        let val = if a.signed { x as i64 as i128 } else { x as i128 };
                        let (g, w) = if single { (f32::from_bits(g as u32) as f64, nearest_float(val, 24)) } else { (f64::from_bits(g), nearest_float(val, 53)) };
                        ensure!(g == w, &name, "{name}({}) = {g:e}, expected {w:e}", show(a, x));
                        cx.case(w as i128 != val);
                    }
                    cx.sample(|| format!("{name}: chunk {i}"));
                    Ok(())
                })
            }));
        }
    }
    let c2 = cl.clone();
    v.push(space("LREAL_TO_REAL: every exponent x mantissa patterns", 4096, move |i, cx| {
        c2.using(cx, &["LREAL_TO_REAL"], |run, ix, cx| {
            let n: u64 = if cx.tier == Tier::Thorough { 1 << 14 } else { 128 };
            let ties = (0..64u64).chain([(1 << 23) - 1, (1 << 23) - 2]).flat_map(|k| [-1i64, 0, 1].map(|d| (k << 29 | 1 << 28).wrapping_add(d as u64)));
            for m in lreal_mantissas().iter().copied().chain((0..n).map(|k| k * ((1 << 52) / n) + (k & 3))).chain(ties) {
                let b = i << 52 | m;
                let g = value!(run, ix[0], &[b], "LREAL_TO_REAL", format!("LREAL_TO_REAL({:e})", f64::from_bits(b)));
                let w = nearest_real(f64::from_bits(b));
                let (g, w) = (f32::from_bits(g as u32), f32::from_bits(w));
                ensure!(g == w && g.is_sign_negative() == w.is_sign_negative() || g.is_nan() && w.is_nan(), "LREAL_TO_REAL", "LREAL_TO_REAL({:e}) = {g:e}, expected {w:e}", f64::from_bits(b));
                cx.case(w as f64 != f64::from_bits(b));
            }
            Ok(())
        })
    }));
    v.push(space("REAL_TO_LREAL: every exponent x mantissas", 512, move |i, cx| {
        cl.using(cx, &["REAL_TO_LREAL"], |run, ix, cx| {
            let step = if cx.tier == Tier::Thorough { 16 } else { 1 << 13 };
            for m in (0..1u32 << 23).step_by(step) {
                let b = (i as u32) << 23 | m | (m >> 13) & (step as u32 - 1);
                let x = f32::from_bits(b);
                let g = f64::from_bits(value!(run, ix[0], &[b as u64], "REAL_TO_LREAL", format!("REAL_TO_LREAL({x:e})")));
                // the same number: a signed multiple of a power of two
                let e = (b >> 23 & 255) as i32;
                let w = if e == 255 {
                    if b << 9 == 0 { f64::INFINITY } else { f64::NAN }
                } else if e == 0 {
                    (b & 0x7f_ffff) as f64 * 2f64.powi(-149)
                } else {
                    ((b & 0x7f_ffff) | 1 << 23) as f64 * 2f64.powi(e - 150)
                };
                let w = if b >> 31 == 1 { -w } else { w };
                ensure!(g == w && g.is_sign_negative() == w.is_sign_negative() || g.is_nan() && w.is_nan(), "REAL_TO_LREAL", "REAL_TO_LREAL({x:e}) = {g:e}, expected {w:e}");
                cx.case(e != 0);
            }
            Ok(())
        })
    }));
    v
}


// ---------------------------------------------------------------- C33
/// A call of a declared function by a client: name of the client function, what it calls, its text.
pub struct Q {
    pub name: String,
    pub label: String,
    pub src: String,
}
pub fn query(k: usize, ret: &str, params: &[(&str, &str)], outs: &[(&str, &str)], expr: &str, label: &str) -> Q {
    let name = format!("Q_{k}_");
    let mut src = format!("FUNCTION {name} : {ret} VAR_INPUT");
    for (n, t) in params {
        src += &format!(" {n} : {t};");
    }
    src += " END_VAR";
    if !outs.is_empty() {
        src += " VAR_IN_OUT";
        for (n, t) in outs {
            src += &format!(" {n} : {t};");
        }
        src += " END_VAR";
    }
    src += &format!(" {name} := {expr}; END_FUNCTION\n");
    Q { name, label: label.into(), src }
}
/// the outcome of a call as the date oracle compares it
pub fn outcome(run: &mut Run, f: usize, args: &[u64]) -> Option<Result<Result<i64, String>, String>> {
    match run.call(f, args, std::ptr::null_mut()) {
        Out::Val(v) => Some(Ok(Ok(v as i64))),
        Out::Abort => Some(Ok(Err("panic".into()))),
        Out::Bad(m) => Some(Err(m)),
        Out::Skip => None,
    }
}
fn date_check(run: &mut Run, f: usize, label: &str, args: &[u64], want: Option<i64>, cx: &mut Ctx) -> R {
    cx.case(want != Some(0));
    let text = || args.iter().map(|a| (*a as i64).to_string()).collect::<Vec<_>>().join(", ");
    match outcome(run, f, args) {
        None => Ok(()),
        Some(Err(m)) => bail!(label, "{label}({}): {m}", text()),
        Some(Ok(g)) => super::dates::same(label, text, g, want),
    }
}
fn c33(t: Tier) -> Vec<Space> {
    use super::dates::*;
    let th = thorough(t);
    let mut qs: Vec<Q> = vec![];
    let mut add = |ret: &str, params: &[(&str, &str)], outs: &[(&str, &str)], expr: String, label: String| -> String {
        let q = query(qs.len(), ret, params, outs, &expr, &label);
        let n = q.name.clone();
        qs.push(q);
        n
    };
    // (client, label, sign)
    let mut sums: Vec<(String, String, i128)> = vec![];
    for (f, sign, r, a, b) in [
        ("ADD", 1, "TIME", "TIME", "TIME"),
        ("ADD", 1, "LTIME", "LTIME", "LTIME"),
        ("ADD", 1, "TOD", "TOD", "TIME"),
        ("ADD", 1, "LTOD", "LTOD", "LTIME"),
        ("ADD", 1, "DT", "DT", "TIME"),
        ("ADD", 1, "LDT", "LDT", "LTIME"),
        ("ADD_TIME", 1, "TIME", "TIME", "TIME"),
        ("ADD_LTIME", 1, "LTIME", "LTIME", "LTIME"),
        ("ADD_TOD_TIME", 1, "TOD", "TOD", "TIME"),
        ("ADD_LTOD_LTIME", 1, "LTOD", "LTOD", "LTIME"),
        ("ADD_DT_TIME", 1, "DT", "DT", "TIME"),
        ("ADD_LDT_LTIME", 1, "LDT", "LDT", "LTIME"),
        ("SUB", -1, "TIME", "TIME", "TIME"),
        ("SUB", -1, "LTIME", "LTIME", "LTIME"),
        ("SUB", -1, "TIME", "DATE", "DATE"),
        ("SUB", -1, "LTIME", "LDATE", "LDATE"),
        ("SUB", -1, "TOD", "TOD", "TIME"),
        ("SUB", -1, "TIME", "TOD", "TOD"),
        ("SUB", -1, "DT", "DT", "TIME"),
        ("SUB", -1, "TIME", "DT", "DT"),
        ("SUB_TIME", -1, "TIME", "TIME", "TIME"),
        ("SUB_LTIME", -1, "LTIME", "LTIME", "LTIME"),
        ("SUB_DATE_DATE", -1, "TIME", "DATE", "DATE"),
        ("SUB_LDATE_LDATE", -1, "LTIME", "LDATE", "LDATE"),
        ("SUB_TOD_TIME", -1, "TOD", "TOD", "TIME"),
        ("SUB_LTOD_LTIME", -1, "LTOD", "LTOD", "LTIME"),
        ("SUB_TOD_TOD", -1, "TIME", "TOD", "TOD"),
        ("SUB_LTOD_LTOD", -1, "LTIME", "LTOD", "LTOD"),
        ("SUB_DT_TIME", -1, "DT", "DT", "TIME"),
        ("SUB_LDT_LTIME", -1, "LDT", "LDT", "LTIME"),
        ("SUB_DT_DT", -1, "TIME", "DT", "DT"),
        ("SUB_LDT_LDT", -1, "LTIME", "LDT", "LDT"),
    ] {
        let l = format!("{f}<{a},{b}>");
        sums.push((add(r, &[("a", a), ("b", b)], &[], format!("{f}(a, b)"), l.clone()), l, sign));
    }
    // (client, label, operand, division)
    let mut scales: Vec<(String, String, &'static str, bool)> = vec![];
    for (f, r) in [("MUL", "TIME"), ("MUL", "LTIME"), ("MUL_TIME", "TIME"), ("MUL_LTIME", "LTIME"), ("DIV", "TIME"), ("DIV", "LTIME"), ("DIV_TIME", "TIME"), ("DIV_LTIME", "LTIME")] {
        for b in ["SINT", "INT", "DINT", "LINT", "USINT", "UINT", "UDINT", "ULINT", "REAL", "LREAL"] {
            let l = format!("{f}<{r},{b}>");
            scales.push((add(r, &[("a", r), ("b", b)], &[], format!("{f}(a, b)"), l.clone()), l, b, f.starts_with("DIV")));
        }
    }
    // composing: (client, label, type, which: 0 date, 1 time of day, 2 both)
    let mut comps: Vec<(String, String, &'static str, u8)> = vec![];
    const NM: [&str; 7] = ["y", "m", "d", "h", "mi", "s", "ms"];
    for b in ["SINT", "USINT", "INT", "UINT", "DINT", "UDINT", "LINT", "ULINT"] {
        for (f, r, k) in [("CONCAT_DATE", "DATE", 0), ("CONCAT_TOD", "TOD", 1), ("CONCAT_LTOD", "LTOD", 1), ("CONCAT_DT", "DT", 2), ("CONCAT_LDT", "LDT", 2)] {
            if b.ends_with("SINT") && k != 1 {
                continue;
            }
            let n = &NM[[0, 3, 0][k as usize]..[3, 7, 7][k as usize]];
            let ps: Vec<(&str, &str)> = n.iter().map(|n| (*n, b)).collect();
            let l = format!("{f}<{b}>");
            comps.push((add(r, &ps, &[], format!("{f}({})", n.join(", ")), l.clone()), l, b, k));
        }
    }
    let joins: Vec<(String, String)> = [("CONCAT_DATE_TOD", "TOD"), ("CONCAT_DATE_LTOD", "LTOD")]
        .iter()
        .map(|(f, b)| (add("DT", &[("a", "DATE"), ("b", b)], &[], format!("{f}(a, b)"), f.to_string()), f.to_string()))
        .collect();
    // splitting
    let mut splits: Vec<(String, String, u32, u8)> = vec![];
    for b in TYPES.iter().filter(|t| t.kind == 2 && t.bits > 8) {
        for (f, a, k) in [("SPLIT_DATE", "DATE", 0), ("SPLIT_TOD", "TOD", 1), ("SPLIT_LTOD", "LTOD", 1), ("SPLIT_DT", "DT", 2), ("SPLIT_LDT", "LDT", 2)] {
            let n = &NM[[0, 3, 0][k as usize]..[3, 7, 7][k as usize]];
            let os: Vec<(&str, &str)> = n.iter().map(|n| (*n, b.name)).collect();
            let l = format!("{f}<{}>", b.name);
            splits.push((add("INT", &[("in", a)], &os, format!("{f}(in, {})", n.join(", ")), l.clone()), l, b.bits, k));
        }
    }
    // one operand: (client, label, 0 same value, 1 midnight, 2 time of day, 3 day of week)
    let mut ones: Vec<(String, String, u8)> = vec![];
    for (f, a, r, k) in [
        ("DATE_AND_TIME_TO_DATE", "DT", "DATE", 1),
        ("DATE_AND_TIME_TO_TIME_OF_DAY", "DT", "TOD", 2),
        ("DT_TO_DATE", "DT", "DATE", 1),
        ("DT_TO_TOD", "DT", "TOD", 2),
        ("DT_TO_LTOD", "DT", "LTOD", 2),
        ("LDT_TO_DATE", "LDT", "DATE", 1),
        ("LDT_TO_TOD", "LDT", "TOD", 2),
        ("LDT_TO_LTOD", "LDT", "LTOD", 2),
        ("DT_TO_LDT", "DT", "LDT", 0),
        ("LDT_TO_DT", "LDT", "DT", 0),
        ("TOD_TO_LTOD", "TOD", "LTOD", 0),
        ("LTOD_TO_TOD", "LTOD", "TOD", 0),
        ("TIME_TO_LTIME", "TIME", "LTIME", 0),
        ("LTIME_TO_TIME", "LTIME", "TIME", 0),
        ("DAY_OF_WEEK", "DATE", "SINT", 3),
    ] {
        ones.push((add(r, &[("a", a)], &[], format!("{f}(a)"), f.into()), f.into(), k));
    }
    let cl = Client::new(qs.iter().map(|q| q.src.as_str()).collect::<String>());
    for q in &qs {
        debug_assert!(!q.label.is_empty());
    }

    let mut v = vec![];
    let ts: Rc<Vec<i64>> = Rc::new(times());
    let sub: Rc<Vec<i64>> = Rc::new(ts.iter().copied().enumerate().filter(|(i, x)| th || i % 4 == 0 || x.unsigned_abs() < 3 || x.unsigned_abs() > i64::MAX as u64 - 3).map(|x| x.1).collect());
    // the full product with the operands of the REAL forms is C20's
    let quarter: Rc<Vec<i64>> = Rc::new(ts.iter().copied().enumerate().filter(|(i, x)| i % 4 == 0 || x.unsigned_abs() < 3 || x.unsigned_abs() > i64::MAX as u64 - 3).map(|x| x.1).collect());
    for (n, l, sign) in sums {
        let (cl, ts) = (cl.clone(), if th { ts.clone() } else { sub.clone() });
        v.push(space(format!("{l}: boundary times"), ts.len() as u64, move |i, cx| {
            cl.using(cx, &[&n], |run, ix, cx| {
                let a = ts[i as usize];
                for &b in ts.iter() {
                    date_check(run, ix[0], &l, &[a as u64, b as u64], fit(a as i128 + sign * b as i128), cx)?;
                }
                for lim in [i64::MAX as i128, i64::MIN as i128, 0] {
                    for d in -2..=2 {
                        if let Some(b) = fit((lim - a as i128 + d) * sign) {
                            date_check(run, ix[0], &l, &[a as u64, b as u64], fit(a as i128 + sign * b as i128), cx)?;
                        }
                    }
                }
                cx.sample(|| format!("{l} with {a}"));
                Ok(())
            })
        }));
    }
    for (n, l, b, div) in scales {
        let (cl, ts) = (cl.clone(), sub.clone());
        if b.ends_with("REAL") {
            let ts = quarter.clone();
            let single = b == "REAL";
            let rs: Vec<f64> = if single { reals32(Tier::Quick).iter().map(|x| *x as f64).collect() } else { reals64(Tier::Quick) };
            let rs: Vec<f64> = rs.into_iter().enumerate().filter(|(i, _)| th || i % 11 == 0).map(|x| x.1).collect();
            v.push(space(format!("{l}: boundary times x every exponent"), ts.len() as u64, move |i, cx| {
                cl.using(cx, &[&n], |run, ix, cx| {
                    let a = ts[i as usize];
                    for &x in &rs {
                        let arg = if single { (x as f32).to_bits() as u64 } else { x.to_bits() };
                        match outcome(run, ix[0], &[a as u64, arg]) {
                            None => return Ok(()),
                            Some(Err(m)) => bail!(l.as_str(), "{l}({a}, {x:e}): {m}"),
                            // an abort is passed on as a panic of the same kind
                            Some(Ok(g)) => check_scale(&l, cx, a, x, single, div, || match g {
                                Ok(g) => g,
                                Err(_) => panic!("abort"),
                            })?,
                        }
                    }
                    Ok(())
                })
            }));
        } else {
            let ty = TYPES.iter().find(|t| t.name == b).unwrap();
            let (lo, hi) = if ty.signed { (-(1i128 << (ty.bits - 1)), (1i128 << (ty.bits - 1)) - 1) } else { (0, (1i128 << ty.bits) - 1) };
            let mut ops: Vec<i128> = if ty.bits == 8 { (lo..=hi).collect() } else { crate::core::bounds(ty.bits, ty.signed) };
            ops.extend([3, 5, 7, 60, 86400, 999].iter().filter(|x| **x <= hi));
            v.push(space(format!("{l}: boundary times x operands"), ops.len() as u64, move |i, cx| {
                cl.using(cx, &[&n], |run, ix, cx| {
                    let b = ops[i as usize];
                    let w = |a: i64| if !div { fit(a as i128 * b) } else if b == 0 { None } else { fit(a as i128 / b) };
                    for &a in ts.iter() {
                        date_check(run, ix[0], &l, &[a as u64, b as u64], w(a), cx)?;
                    }
                    if b != 0 {
                        for lim in [i64::MAX as i128, i64::MIN as i128] {
                            for d in -2..=2 {
                                for a in [lim / b + d, b * d] {
                                    if let Some(a) = fit(a) {
                                        date_check(run, ix[0], &l, &[a as u64, b as u64], w(a), cx)?;
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                })
            }));
        }
    }
    for (n, l, b, k) in comps {
        let cl = cl.clone();
        let ty = TYPES.iter().find(|t| t.name == b).unwrap();
        let (lo, hi) = if ty.signed { (-(1i128 << (ty.bits - 1)), (1i128 << (ty.bits - 1)) - 1) } else { (0, (1i128 << ty.bits) - 1) };
        let vals = move |c: &[i128]| -> Vec<i128> {
            let mut c = c.to_vec();
            for p in [8, 16, 32] {
                c.push(c[0] + (1i128 << p));
            }
            c.extend([lo, hi, -1]);
            c.retain(|x| *x >= lo && *x <= hi);
            c
        };
        let years: Vec<i128> = if k == 1 { vec![0] } else { vals(&[1970, 1677, 1678, 1900, 1999, 2000, 2023, 2024, 2100, 2261, 2262, 2263, 1676, 0, 1]) };
        v.push(space(format!("{l}: component combinations"), years.len() as u64 * 32, move |i, cx| {
            cl.using(cx, &[&n], |run, ix, cx| {
                let (y, part) = (years[i as usize / 32], i as usize % 32);
                let ms = if k == 1 { vec![0] } else { vals(&[1, 2, 3, 4, 9, 12, 0, 13]) };
                let ds = if k == 1 { vec![0] } else { vals(&[1, 15, 28, 29, 30, 31, 0, 32]) };
                let hs = if k == 0 { vec![0] } else { vals(&[0, 12, 23, 24]) };
                let mi = if k == 0 { vec![0] } else { vals(&[0, 30, 59, 60]) };
                let ss = if k == 0 { vec![0] } else { vals(&[0, 47, 59, 60]) };
                let ls = if k == 0 { vec![0] } else { vals(&[0, 127, 854, 999, 1000]) };
                let mut c = 0;
                for &m in &ms {
                    for &d in &ds {
                        for &h in &hs {
                            for &mn in &mi {
                                for &s in &ss {
                                    for &z in &ls {
                                        c += 1;
                                        if c % 32 != part || k == 2 && !th && (c / 32) % 61 != (part + i as usize) % 61 {
                                            continue;
                                        }
                                        let date = date_model(y, m, d);
                                        let tod = tod_model(h, mn, s, z);
                                        let all = [y, m, d, h, mn, s, z].map(|x| x as u64);
                                        let (args, w): (&[u64], _) = match k {
                                            0 => (&all[..3], date),
                                            1 => (&all[3..], tod),
                                            _ => (&all[..], date.and_then(|a| tod.and_then(|b| fit(a as i128 + b as i128)))),
                                        };
                                        date_check(run, ix[0], &l, args, w, cx)?;
                                    }
                                }
                            }
                        }
                    }
                }
                Ok(())
            })
        }));
    }
    let days: Rc<Vec<i64>> = Rc::new({
        let (lo, hi) = (super::text::DAY_LO, super::text::DAY_HI);
        (lo..=hi).filter(|d| th || d % 37 == 0 || (d - lo) < 400 || (hi - d) < 400 || d.abs() < 800).collect()
    });
    let tds = super::text::tods();
    for (n, l) in joins {
        let (cl, days, tds) = (cl.clone(), days.clone(), tds.clone());
        v.push(space(format!("{l}: days x times of day"), days.len() as u64, move |i, cx| {
            cl.using(cx, &[&n], |run, ix, cx| {
                let a = days[i as usize] as i128 * DAY as i128;
                for k in 0..8 {
                    let td = tds[(i as usize * 11 + k * 97) % tds.len()];
                    if let Some(a) = fit(a) {
                        date_check(run, ix[0], &l, &[a as u64, td as u64], fit(a as i128 + td as i128), cx)?;
                    }
                }
                Ok(())
            })
        }));
    }
    let instants: Rc<Vec<i64>> = Rc::new({
        let mut v = times();
        for (i, d) in days.iter().enumerate() {
            for k in 0..3 {
                let td = [0, DAY - 1, tds[(i * 13 + 101) % tds.len()]][k];
                if let Some(x) = fit(*d as i128 * DAY as i128 + td as i128) {
                    v.push(x);
                }
            }
        }
        v
    });
    const CH: usize = 1024;
    // the outputs as they are declared: variables of exactly the declared types, nothing written beside them
    for (f, k) in [("SPLIT_DATE", 0), ("SPLIT_TOD", 1), ("SPLIT_LTOD", 1), ("SPLIT_DT", 2), ("SPLIT_LDT", 2)] {
        for b in TYPES.iter().filter(|t| t.kind == 2 && t.bits > 8) {
            let name = format!("{f}__{}", b.name);
            let (cl, ins) = (cl.clone(), instants.clone());
            v.push(space(format!("{name}: outputs of the declared types"), 1, move |_, cx| {
                cl.using(cx, &[&name], |run, ix, cx| {
                    let u = &run.p.pous[ix[0]];
                    let mut els = vec![];
                    for p in &u.params[1..] {
                        match u.vars[*p].ty {
                            st::Ty::El(e) => els.push(e),
                            _ => return Ok(()),
                        }
                    }
                    let mut cells = [0u64; 32];
                    let base = cells.as_mut_ptr() as *mut u8;
                    for &x in ins.iter().step_by(ins.len().div_ceil(500)) {
                        let x = if k == 1 { x.rem_euclid(DAY) } else { x };
                        let p = parts(x);
                        let want = match k {
                            0 => &p[..3],
                            1 => &p[3..],
                            _ => &p[..],
                        };
                        ensure!(want.len() == els.len(), name.as_str(), "{name} declares {} outputs, not {}", els.len(), want.len());
                        unsafe { (0..256).for_each(|j| base.add(j).write_volatile(0xD5)) };
                        let mut args = vec![x as u64];
                        args.extend((0..want.len()).map(|j| unsafe { base.add(32 * j + 16) } as u64));
                        cx.case(x != 0);
                        match outcome(run, ix[0], &args) {
                            None => return Ok(()),
                            Some(Err(m)) => bail!(name.as_str(), "{name}({x}): {m}"),
                            Some(Ok(Err(_))) => bail!(name.as_str(), "{name}({x}) aborts"),
                            Some(Ok(Ok(r))) => ensure!(r == 0, name.as_str(), "{name}({x}) returns {r}"),
                        }
                        for (j, e) in els.iter().enumerate() {
                            let (cell, n) = (32 * j + 16, e.size() as usize);
                            let at = |o: usize| unsafe { base.add(o).read_volatile() };
                            let mut g = 0u64;
                            (0..n).for_each(|o| g |= (at(cell + o) as u64) << (8 * o));
                            let mask = if n == 8 { u64::MAX } else { (1 << (8 * n)) - 1 };
                            ensure!(g == want[j] as u64 & mask, name.as_str(), "{name}({x}): output {} of declared type {} is {g:#x}, expected {:#x}", j + 1, e.name(), want[j]);
                            ensure!((32 * j..cell).chain(cell + n..32 * j + 32).all(|o| at(o) == 0xD5), name.as_str(), "{name}({x}) writes beside its output {} of declared type {}", j + 1, e.name());
                        }
                    }
                    Ok(())
                })
            }));
        }
    }
    for (n, l, bits, k) in splits {
        let (cl, ins) = (cl.clone(), instants.clone());
        v.push(space(format!("{l}: instants"), ins.len().div_ceil(CH) as u64, move |i, cx| {
            cl.using(cx, &[&n], |run, ix, cx| {
                let mut cells = [0u64; 9];
                let base = cells.as_mut_ptr();
                for &x in ins.iter().skip(i as usize * CH).take(CH) {
                    let x = if k == 1 { x.rem_euclid(DAY) } else { x };
                    let p = parts(x);
                    let want = match k {
                        0 => &p[..3],
                        1 => &p[3..],
                        _ => &p[..],
                    };
                    const DIRT: u64 = 0xD1D2_D3D4_D5D6_D7D8;
                    unsafe { (0..9).for_each(|k| base.add(k).write_volatile(DIRT)) };
                    let mut args = vec![x as u64];
                    for j in 0..want.len() {
                        args.push(unsafe { base.add(j + 1) } as u64);
                    }
                    cx.case(x != 0);
                    match outcome(run, ix[0], &args) {
                        None => return Ok(()),
                        Some(Err(m)) => bail!(l.as_str(), "{l}({x}): {m}"),
                        Some(Ok(Err(_))) => bail!(l.as_str(), "{l}({x}) aborts"),
                        Some(Ok(Ok(r))) => ensure!(r == 0, l.as_str(), "{l}({x}) returns {r}"),
                    }
                    let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
                    for j in 0..9 {
                        let g = unsafe { base.add(j).read_volatile() };
                        let w = if j >= 1 && j <= want.len() { (want[j - 1] as u64 & mask) | (DIRT & !mask) } else { DIRT };
                        ensure!(g == w, l.as_str(), "{l}({x}): output {j} is {:#x}, expected {:#x}", g, w);
                    }
                }
                Ok(())
            })
        }));
    }
    for (n, l, k) in ones {
        let (cl, ins) = (cl.clone(), instants.clone());
        v.push(space(format!("{l}: instants"), ins.len().div_ceil(CH) as u64, move |i, cx| {
            cl.using(cx, &[&n], |run, ix, cx| {
                for &x in ins.iter().skip(i as usize * CH).take(CH) {
                    let w = match k {
                        0 => Some(x),
                        1 => fit(x.div_euclid(DAY) as i128 * DAY as i128),
                        2 => Some(x.rem_euclid(DAY)),
                        _ => Some((x.div_euclid(DAY) + 4).rem_euclid(7)),
                    };
                    date_check(run, ix[0], &l, &[x as u64], w, cx)?;
                }
                Ok(())
            })
        }));
    }
    v
}

pub const ASS: &[&str] = &["the Structured Text sources are executed by the harness's own front end (harness/st), which is checked against the repository's 600+ integration tests (harness/conform); constructs it does not read are counted as not modelled and never reported"];
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C31", level: "exploration", exhaustive: true, spaces: c31,
        rule: "every declared conversion among BOOL, bit strings, characters, integers and (by name) date and time types, called through its Structured Text declaration: all values of 8- and 16-bit sources; for wider ones every walking bit, run, power of two and ten and their neighbours plus an evenly spaced lattice; one case = one (conversion, chunk of values), evaluations = calls",
        assumptions: ASS },
    Prop { id: "C32", level: "exploration", exhaustive: true, spaces: c32,
        rule: "every declared conversion between REAL/LREAL and the integer, bit and time types and each other, called through its Structured Text declaration: every exponent times structured mantissas, every integer and half around each limit of the target, boundary integers of every magnitude; one case = one (conversion, chunk of values), evaluations = calls",
        assumptions: ASS },
    Prop { id: "C33", level: "exploration", exhaustive: true, spaces: c33,
        rule: "every declared date and time function, typed name and generic call (every combination of argument types), called through its Structured Text declaration: boundary operands pairwise, components on and beyond every field limit, instants on and around every day, second and type limit; evaluations = calls",
        assumptions: ASS }]
}
