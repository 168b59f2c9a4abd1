//! C36 generic numeric, bit and selection functions called from client programs.
use super::bits::{bcd_model, lreal_mantissas, patterns, shift_model};
use super::decl::*;
use super::num::{angle64, atan2_special, check32, check64, eq_bits, grid64, near32, pow32, pow64, ulp64, K};
use crate::bf::Bf;
use crate::core::*;
use crate::lang::Run;
use crate::*;
use std::rc::Rc;

fn real(name: &str) -> u8 {
    match name {
        "REAL" => 32,
        "LREAL" => 64,
        _ => 0,
    }
}
fn shown(ty: &str, x: u64) -> String {
    match real(ty) {
        32 => format!("{:?}", f32::from_bits(x as u32)),
        64 => format!("{:?}", f64::from_bits(x)),
        _ => show(TYPES.iter().find(|t| t.name == ty).unwrap(), x),
    }
}
fn number(ty: &str, x: u64) -> f64 {
    if real(ty) == 32 {
        f32::from_bits(x as u32) as f64
    } else {
        f64::from_bits(x)
    }
}
/// a value in an order-preserving form: the order of the data type
fn rank(ty: &str, x: u64) -> i128 {
    match real(ty) {
        0 => {
            let t = TYPES.iter().find(|t| t.name == ty).unwrap();
            if t.signed {
                x as i64 as i128
            } else {
                x as i128
            }
        }
        b => {
            let top = 1u64 << (b - 1);
            let m = (x & (top - 1)) as i128;
            if x & top != 0 {
                -m
            } else {
                m
            }
        }
    }
}
fn boundary(ty: &str, wide: bool) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    match real(ty) {
        0 => {
            let t = TYPES.iter().find(|t| t.name == ty).unwrap();
            if t.bits == 1 {
                return vec![0, 1];
            }
            for b in bounds(t.bits, t.signed) {
                v.push(ext(t, b as u64));
            }
            let m = u64::MAX >> (64 - t.bits);
            for x in [0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x8080_8080_8080_8080] {
                v.push(ext(t, x & m));
            }
            if wide {
                v.extend(patterns(t.bits).iter().map(|x| ext(t, *x)));
            }
        }
        32 => {
            for e in (0..255u64).step_by(if wide { 1 } else { 23 }).chain([126, 127, 128, 254]) {
                for m in [0u64, 1, 0x7f_ffff, 0x40_0000] {
                    v.extend([e << 23 | m, 1 << 31 | e << 23 | m]);
                }
            }
            v.extend([0x7f80_0000, 0xff80_0000]);
        }
        _ => {
            for e in (0..2047u64).step_by(if wide { 7 } else { 211 }).chain([1022, 1023, 1024, 2046]) {
                for m in [0u64, 1, (1 << 52) - 1, 1 << 51] {
                    v.extend([e << 52 | m, 1 << 63 | e << 52 | m]);
                }
            }
            v.extend([0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000]);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn fits(ty: &str, g: u64, w: u64) -> bool {
    if real(ty) != 0 {
        let (g, w) = (number(ty, g), number(ty, w));
        return g == w || g.is_nan() && w.is_nan();
    }
    g == w
}

fn c36(t: Tier) -> Vec<Space> {
    let th = thorough(t);
    let mut src = String::new();
    let mut k = 0usize;
    let mut add = |ret: &str, params: &[(&str, &str)], expr: &str| -> String {
        k += 1;
        let q = query(k, ret, params, &[], expr, "");
        src += &q.src;
        q.name
    };
    type Check = Box<dyn Fn(&mut Run, usize, &str, u64, &mut Ctx) -> R>;
    let mut jobs: Vec<(String, String, u64, Check)> = vec![];
    // ---- ABS
    for ty in ["SINT", "INT", "DINT", "LINT", "REAL", "LREAL"] {
        let n = add(ty, &[("x", ty)], "ABS(x)");
        let bits = match real(ty) {
            0 => TYPES.iter().find(|t| t.name == ty).unwrap().bits,
            b => b as u32,
        };
        let xs: Vec<u64> = if bits <= 16 { boundary(ty, true) } else { boundary(ty, true).into_iter().chain((0..if th { 1 << 22 } else { 1 << 16 }).map(|k: u64| k.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (64 - bits))).collect() };
        let tt = TYPES.iter().find(|t| t.name == ty).copied();
        let xs: Vec<u64> = xs.into_iter().map(|x| tt.map_or(x, |t| ext(&t, x))).collect();
        const CH: usize = 8192;
        jobs.push((n, format!("ABS({ty})"), xs.len().div_ceil(CH) as u64, Box::new(move |run, f, label, i, cx| {
            for &x in xs.iter().skip(i as usize * CH).take(CH) {
                // the result for the smallest value does not exist
                let w = match real(ty) {
                    0 if x as i64 == i64::MIN >> (64 - bits) => continue,
                    0 => (x as i64).unsigned_abs(),
                    b => x & !(1u64 << (b - 1)),
                };
                cx.case(x != 0);
                let g = value!(run, f, &[x], label, format!("ABS({} of type {ty})", shown(ty, x)));
                ensure!(fits(ty, g, w), label, "ABS({} of type {ty}) = {}, expected {}", shown(ty, x), shown(ty, g), shown(ty, w));
            }
            Ok(())
        })));
    }
    // ---- functions of one REAL or LREAL argument
    for fun in ["SQRT", "LN", "LOG", "EXP", "SIN", "COS", "TAN", "ASIN", "ACOS", "ATAN", "ROUND"] {
        let n = add("REAL", &[("x", "REAL")], &format!("{fun}(x)"));
        let step = if th { 1u32 << 9 } else { 1 << 16 };
        jobs.push((n, format!("{fun}(REAL)"), 512, Box::new(move |run, f, label, i, cx| {
            for m in (0..1u32 << 23).step_by(step as usize).chain([1, 0x7f_ffff, 0x49_0fdb, 0x35_04f3, 0x31_7218]) {
                let x = f32::from_bits((i as u32) << 23 | m);
                cx.case(x.is_finite());
                let r = f32::from_bits(value!(run, f, &[x.to_bits() as u64], label, format!("{fun}({x:?} of type REAL)")) as u32);
                if let Some(w) = check32(fun, x, r) {
                    bail!(label, "{fun}({x:?} of type REAL) = {r:?}, expected {w}");
                }
            }
            Ok(())
        })));
        let n = add("LREAL", &[("x", "LREAL")], &format!("{fun}(x)"));
        jobs.push((n, format!("{fun}(LREAL)"), 4096, Box::new(move |run, f, label, i, cx| {
            let ms = lreal_mantissas();
            for (k, m) in ms.iter().enumerate() {
                if !th && (k + i as usize) % 37 != 0 && k > 1 {
                    continue;
                }
                let x = f64::from_bits(i << 52 | m);
                cx.case(x.is_finite());
                let r = f64::from_bits(value!(run, f, &[x.to_bits()], label, format!("{fun}({x:?} of type LREAL)")));
                if let Some(w) = check64(fun, x, r) {
                    bail!(label, "{fun}({x:?} of type LREAL) = {r:?}, expected {w}");
                }
            }
            Ok(())
        })));
    }
    // ---- ATAN2: the first argument is the ordinate
    for ty in ["REAL", "LREAL"] {
        let named = add(ty, &[("a", ty), ("b", ty)], "ATAN2(x := b, y := a)");
        let pos = add(ty, &[("a", ty), ("b", ty)], "ATAN2(a, b)");
        for n in [named, pos] {
            let xs = boundary(ty, false);
            jobs.push((n, format!("ATAN2({ty})"), xs.len() as u64, Box::new(move |run, f, label, i, cx| {
                let a = xs[i as usize];
                for &b in &xs {
                    let (y, x) = (number(ty, a), number(ty, b));
                    cx.case(y != 0.0 && x != 0.0);
                    let r = number(ty, value!(run, f, &[a, b], label, format!("ATAN2({y:e}, {x:e} of type {ty})")));
                    let good = match atan2_special(y, x) {
                        Some(w) if w == 0.0 || w.is_nan() => eq_bits(r, w),
                        Some(w) if ty == "LREAL" => (r - w).abs() <= K * ulp64(w),
                        Some(w) => near32(r as f32, w),
                        None if ty == "LREAL" => r.is_sign_negative() == (y < 0.0) && angle64(r, &Bf::f64(y), &Bf::f64(x)),
                        None => near32(r as f32, y.atan2(x)),
                    };
                    ensure!(good, label, "ATAN2({y:e}, {x:e} of type {ty}) = {r:e}, expected about {:e}", y.atan2(x));
                }
                Ok(())
            })));
        }
    }
    // ---- EXPT: every base type with every exponent type
    for base in ["REAL", "LREAL"] {
        for et in ["SINT", "INT", "DINT", "LINT", "USINT", "UINT", "UDINT", "ULINT", "REAL", "LREAL"] {
            let n = add(base, &[("x", base), ("n", et)], "EXPT(x, n)");
            let named = add(base, &[("x", base), ("n", et)], "EXPT(in2 := n, in1 := x)");
            let mut ns: Vec<u64> = vec![];
            if real(et) == 0 {
                let tt = TYPES.iter().find(|t| t.name == et).unwrap();
                let lo = if !tt.signed { 0 } else if tt.bits == 8 { -128i64 } else { -140 };
                for v in lo..=if tt.bits == 8 { 127 } else { 140 } {
                    ns.push(v as u64);
                }
                for v in bounds(tt.bits, tt.signed) {
                    // an exponent beyond 2^53 is taken to the precision of LREAL
                    if v.unsigned_abs() <= 1 << 53 || v as f64 as i128 == v {
                        ns.push(ext(tt, v as u64));
                    }
                }
                if tt.bits >= 32 {
                    for v in [3_000_000_000i64, 4_294_967_295, 2_147_483_648, 2_147_483_649, 4_294_967_298, 4_294_967_297, 8_589_934_592, 1 << 40, (1 << 40) + 1, 281_474_976_710_659] {
                        if tt.bits == 64 || v < 1 << 32 && !tt.signed {
                            ns.push(v as u64);
                            if tt.signed {
                                ns.push((-v) as u64);
                            }
                        }
                    }
                }
            } else {
                ns = boundary(et, false);
                for v in -60..60 {
                    for d in [0.0, 0.5, 0.25] {
                        let y = v as f64 + d;
                        ns.push(if et == "REAL" { (y as f32).to_bits() as u64 } else { y.to_bits() });
                    }
                }
            }
            ns.sort();
            ns.dedup();
            let ns = Rc::new(ns);
            // bases: ordinary ones, and ones so near 1 that huge exponents stay finite
            let mut bs: Vec<u64> = boundary(base, false);
            for v in [0.0f64, 0.5, 1.0, 1.5, 2.0, 3.0, 7.0, 10.0, 100.0, 1.0 / 3.0, 1.0 + 2f64.powi(-23), 1.0 - 2f64.powi(-24), 1.0 + 3e-7, 1.0 + 1e-9, 1.0 - 1e-9, 1.0 + 1e-12, 1.0 - 1e-12, 1.0 + f64::EPSILON, 1.0000001] {
                for v in [v, -v] {
                    bs.push(if base == "REAL" { (v as f32).to_bits() as u64 } else { v.to_bits() });
                }
            }
            if th {
                let g = grid64(64, &[0, 0x921fb54442d18]);
                bs.extend(g.iter().map(|v| if base == "REAL" { (*v as f32).to_bits() as u64 } else { v.to_bits() }));
            }
            bs.sort();
            bs.dedup();
            let bs = Rc::new(bs);
            for n in [n, named] {
                let (bs, ns) = (bs.clone(), ns.clone());
                jobs.push((n, format!("EXPT({base}, {et})"), bs.len() as u64, Box::new(move |run, f, label, i, cx| {
                    let b = bs[i as usize];
                    for &e in ns.iter() {
                        let int = real(et) == 0;
                        let y = if int { rank(et, e) as f64 } else { number(et, e) };
                        let x = number(base, b);
                        cx.case(x.is_finite() && y != 0.0);
                        let what = || format!("EXPT({} of type {base}, {} of type {et})", shown(base, b), shown(et, e));
                        let r = number(base, value!(run, f, &[b, e], label, what()));
                        let bad = match (base, et) {
                            ("LREAL", _) => pow64(x, y, r, int),
                            (_, "LREAL") => pow32(x as f32, y, r as f32, false, 2f64.powi(-24)),
                            _ => pow32(x as f32, y, r as f32, int, 0.0),
                        };
                        if let Some(w) = bad {
                            bail!(label, "{} = {r:e}, expected {w}", what());
                        }
                    }
                    Ok(())
                })));
            }
        }
    }
    // ---- MAX, MIN, LIMIT
    for ty in ["BOOL", "BYTE", "WORD", "DWORD", "LWORD", "CHAR", "WCHAR", "SINT", "INT", "DINT", "LINT", "USINT", "UINT", "UDINT", "ULINT", "REAL", "LREAL", "TIME", "LTIME", "DATE", "LDATE", "DT", "LDT", "TOD", "LTOD"] {
        for (fun, max) in [("MAX", true), ("MIN", false)] {
            for cnt in 1..=4usize {
                let ps = [("a", ty), ("b", ty), ("c", ty), ("d", ty)];
                let n = add(ty, &ps[..cnt], &format!("{fun}({})", &"a, b, c, d"[..3 * cnt - 2]));
                let mut xs = boundary(ty, cnt <= 2 && th);
                if cnt == 2 && xs.len() > 5000 {
                    xs = xs.iter().copied().step_by(7).chain(boundary(ty, false)).collect();
                    xs.sort();
                    xs.dedup();
                }
                if cnt >= 3 {
                    let keep = if cnt == 3 { 24 } else { 9 };
                    let st = xs.len().div_ceil(keep).max(1);
                    let l = *xs.last().unwrap();
                    xs = xs.into_iter().step_by(st).chain([l]).collect();
                }
                jobs.push((n, format!("{fun} of {cnt} {ty}"), xs.len() as u64, Box::new(move |run, f, label, i, cx| {
                    let m = xs.len();
                    let mut args = [xs[i as usize]; 4];
                    for j in 0..m.pow(cnt as u32 - 1) {
                        let mut q = j;
                        for a in args.iter_mut().take(cnt).skip(1) {
                            *a = xs[q % m];
                            q /= m;
                        }
                        let a = &args[..cnt];
                        let w = *if max { a.iter().max_by_key(|x| rank(ty, **x)) } else { a.iter().min_by_key(|x| rank(ty, **x)) }.unwrap();
                        cx.case(cnt > 1);
                        let what = || format!("{fun}({}) of type {ty}", a.iter().map(|x| shown(ty, *x)).collect::<Vec<_>>().join(", "));
                        let g = value!(run, f, a, label, what());
                        ensure!(fits(ty, g, w), label, "{} = {}, expected {}", what(), shown(ty, g), shown(ty, w));
                    }
                    Ok(())
                })));
            }
        }
        for (n, order) in [(add(ty, &[("a", ty), ("b", ty), ("c", ty)], "LIMIT(a, b, c)"), "LIMIT"), (add(ty, &[("a", ty), ("b", ty), ("c", ty)], "LIMIT(MAX := c, IN := b, MIN := a)"), "LIMIT by name")] {
            let xs = boundary(ty, false);
            let st = xs.len().div_ceil(30);
            let l = *xs.last().unwrap();
            let xs: Vec<u64> = xs.into_iter().step_by(st).chain([l]).collect();
            jobs.push((n, format!("{order} {ty}"), xs.len() as u64, Box::new(move |run, f, label, i, cx| {
                let a = xs[i as usize];
                for &c in &xs {
                    if rank(ty, a) > rank(ty, c) {
                        continue;
                    }
                    for &b in &xs {
                        let w = if rank(ty, b) < rank(ty, a) { a } else if rank(ty, b) > rank(ty, c) { c } else { b };
                        cx.case(b != w);
                        let what = || format!("LIMIT({}, {}, {}) of type {ty}", shown(ty, a), shown(ty, b), shown(ty, c));
                        let g = value!(run, f, &[a, b, c], label, what());
                        ensure!(fits(ty, g, w), label, "{} = {}, expected {}", what(), shown(ty, g), shown(ty, w));
                    }
                }
                Ok(())
            })));
        }
    }
    // ---- shifts and rotations
    for (ty, bits) in [("BYTE", 8), ("WORD", 16), ("DWORD", 32), ("LWORD", 64)] {
        for (op, fun) in ["SHL", "SHR", "ROL", "ROR"].iter().enumerate() {
            let fun = *fun;
            let pos = add(ty, &[("x", ty), ("n", "UDINT")], &format!("{fun}(x, n)"));
            let named = add(ty, &[("x", ty), ("n", "UDINT")], &format!("{fun}(n := n, IN := x)"));
            for (n, form) in [(pos, ""), (named, " by name")] {
                let xs = if bits == 16 && !th { patterns(16).into_iter().step_by(7).collect() } else { patterns(bits) };
                let mut ns: Vec<u64> = (0..=if th { 300 } else { 70 }).collect();
                ns.extend(bounds(32, false).iter().map(|x| *x as u64));
                ns.sort();
                ns.dedup();
                jobs.push((n, format!("{fun} {ty}{form}"), ns.len() as u64, Box::new(move |run, f, label, i, cx| {
                    let n = ns[i as usize];
                    for &x in &xs {
                        let w = shift_model(op as u8, bits, x, n as u32);
                        cx.case(n > 0 && x != 0);
                        let g = value!(run, f, &[x, n], label, format!("{fun}(16#{x:X} of type {ty}, {n})"));
                        ensure!(g == w, label, "{fun}(16#{x:X} of type {ty}, {n}) = 16#{g:X}, expected 16#{w:X}");
                    }
                    Ok(())
                })));
            }
        }
    }
    // ---- byte order
    for ty in ["BYTE", "WORD", "DWORD", "LWORD", "CHAR", "WCHAR", "SINT", "INT", "DINT", "LINT", "USINT", "UINT", "UDINT", "ULINT", "DATE", "DT", "TOD", "LDATE", "LDT", "LTOD", "REAL", "LREAL"] {
        for (fun, swaps) in [("TO_BIG_ENDIAN", true), ("TO_LITTLE_ENDIAN", false), ("FROM_BIG_ENDIAN", false), ("FROM_LITTLE_ENDIAN", true)] {
            if ["BYTE", "CHAR", "SINT", "USINT"].contains(&ty) {
                continue;
            }
            let n = add(ty, &[("x", ty)], &format!("{fun}(x)"));
            let xs = boundary(ty, true);
            const CH: usize = 4096;
            jobs.push((n, format!("{fun} {ty}"), xs.len().div_ceil(CH) as u64, Box::new(move |run, f, label, i, cx| {
                for &x in xs.iter().skip(i as usize * CH).take(CH) {
                    let w = match TYPES.iter().find(|t| t.name == ty) {
                        Some(tt) if swaps => {
                            let mut b = x.to_le_bytes();
                            b[..tt.bits as usize / 8].reverse();
                            ext(tt, u64::from_le_bytes(b))
                        }
                        _ => x,
                    };
                    cx.case(x != 0);
                    let g = value!(run, f, &[x], label, format!("{fun}({x:#x} of type {ty})"));
                    ensure!(g == w, label, "{fun}({x:#x} of type {ty}) = {g:#x}, expected {w:#x}");
                }
                Ok(())
            })));
        }
    }
    // ---- validity
    for (ty, bits) in [("BYTE", 8), ("WORD", 16), ("DWORD", 32), ("LWORD", 64)] {
        let n = add("BOOL", &[("x", ty)], "IS_VALID_BCD(x)");
        let mut xs = boundary(ty, true);
        if bits > 16 {
            // every nibble value at every nibble of decimal numbers
            for k in 0..bits / 4 {
                for d in 0..16u64 {
                    for f in [0x9999_9999_9999_9999u64, 0, 0x1234_5678_9012_3456] {
                        xs.push(((f & !(15 << (4 * k))) | d << (4 * k)) & (u64::MAX >> (64 - bits)));
                    }
                }
            }
        }
        jobs.push((n, format!("IS_VALID_BCD {ty}"), xs.len().div_ceil(4096) as u64, Box::new(move |run, f, label, i, cx| {
            for &x in xs.iter().skip(i as usize * 4096).take(4096) {
                let w = bcd_model(x, bits / 4) as u64;
                cx.case(w == 1);
                let g = value!(run, f, &[x], label, format!("IS_VALID_BCD(16#{x:X} of type {ty})"));
                ensure!(g == w, label, "IS_VALID_BCD(16#{x:X} of type {ty}) = {g}, expected {w}");
            }
            Ok(())
        })));
    }
    for ty in ["REAL", "LREAL"] {
        let n = add("BOOL", &[("x", ty)], "IS_VALID(x)");
        let mut xs = boundary(ty, true);
        for k in 0..if ty == "REAL" { 23 } else { 52 } {
            let inf = if ty == "REAL" { 0x7f80_0000u64 } else { 0x7ff0_0000_0000_0000 };
            xs.extend([inf | 1 << k, inf | 1 << k | if ty == "REAL" { 1 << 31 } else { 1 << 63 }]);
        }
        jobs.push((n, format!("IS_VALID {ty}"), 1, Box::new(move |run, f, label, _, cx| {
            for &x in &xs {
                let w = number(ty, x).is_finite() as u64;
                cx.case(w == 0);
                let g = value!(run, f, &[x], label, format!("IS_VALID({x:#x} of type {ty})"));
                ensure!(g == w, label, "IS_VALID({} of type {ty}) = {g}, expected {w}", shown(ty, x));
            }
            Ok(())
        })));
    }
    // ---- constants as a client sees them
    for (name, ty, w) in [
        ("PI_REAL", "REAL", std::f32::consts::PI as f64),
        ("PI_LREAL", "LREAL", std::f64::consts::PI),
        ("FRAC_PI_2_REAL", "REAL", std::f32::consts::FRAC_PI_2 as f64),
        ("FRAC_PI_2_LREAL", "LREAL", std::f64::consts::FRAC_PI_2),
        ("FRAC_PI_4_REAL", "REAL", std::f32::consts::FRAC_PI_4 as f64),
        ("FRAC_PI_4_LREAL", "LREAL", std::f64::consts::FRAC_PI_4),
        ("E_REAL", "REAL", std::f32::consts::E as f64),
        ("E_LREAL", "LREAL", std::f64::consts::E),
    ] {
        let n = add(ty, &[], name);
        jobs.push((n, name.to_string(), 1, Box::new(move |run, f, label, _, cx| {
            cx.case(true);
            let g = number(ty, value!(run, f, &[], label, name));
            ensure!(g == w, label, "{name} = {g:?}, expected {w:?}");
            Ok(())
        })));
    }
    let cl = Client::new(src);
    jobs.into_iter()
        .map(|(n, label, len, check)| {
            let cl = cl.clone();
            space(format!("{label} [{n}]"), len, move |i, cx| {
                cl.using(cx, &[&n], |run, ix, cx| {
                    cx.sample(|| format!("{label}: chunk {i}"));
                    check(run, ix[0], &label, i, cx)
                })
            })
        })
        .collect()
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C36", level: "exploration", exhaustive: true, spaces: c36, rule: "client functions calling every generic numeric, bit and selection function for every argument type, positionally and by parameter name; all 8- and 16-bit values, every exponent of REAL and LREAL, boundary values of wider types, all lists of up to four arguments over boundary values, every base x exponent of the alphabets for every exponent type; one case = one call", assumptions: ASS }]
}
