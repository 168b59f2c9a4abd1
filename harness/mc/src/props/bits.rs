//! C23 shifts, C24 endianness, C26 validity, C28 bit-pattern transfers
use crate::core::*;
use crate::ffi;
use crate::*;

/// Every value of a type of at most 16 bits; for wider types every walking pattern: all pairs of set
/// bits, all contiguous runs of ones, their complements, every byte value in every byte lane.
pub fn patterns(bits: u32) -> Vec<u64> {
    if bits <= 16 {
        return (0..1u64 << bits).collect();
    }
    let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let mut v = vec![0, m];
    for a in 0..bits {
        for b in a..bits {
            let p = (1u64 << a) | (1u64 << b);
            let len = b - a + 1;
            let run = (if len == 64 { u64::MAX } else { (1u64 << len) - 1 }) << a;
            v.extend([p, !p & m, run, !run & m]);
        }
    }
    for lane in 0..bits / 8 {
        for x in 0..256u64 {
            v.push(x << (lane * 8));
            v.push(!(x << (lane * 8)) & m);
        }
    }
    v.extend([0x0123456789abcdef & m, 0xfedcba9876543210 & m, 0xaaaaaaaaaaaaaaaa & m, 0x5555555555555555 & m, 0x00ff00ff00ff00ff & m]);
    v.sort();
    v.dedup();
    v
}

pub fn shift_model(op: u8, bits: u32, x: u64, n: u32) -> u64 {
    // bit by bit, no shift operators on the value as a whole
    let mut r = 0u64;
    for i in 0..bits {
        if x >> i & 1 == 1 {
            let j: i64 = match op {
                0 => i as i64 + n as i64,
                1 => i as i64 - n as i64,
                2 => (i as i64 + (n % bits) as i64) % bits as i64,
                _ => (i as i64 - (n % bits) as i64 + bits as i64) % bits as i64,
            };
            if j >= 0 && j < bits as i64 {
                r |= 1 << j
            }
        }
    }
    r
}

fn c23(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    for &(name, op, bits, f) in ffi::SHIFTS {
        let pats = patterns(bits);
        let mut counts: Vec<u32> = (0..=if thorough(t) { 600 } else { 140 }).collect();
        for b in bounds(32, false) {
            counts.push(b as u32);
        }
        counts.sort();
        counts.dedup();
        let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        v.push(space(format!("{name}"), counts.len() as u64, move |i, cx| {
            let n = counts[i as usize];
            cx.describe(|| format!("{name}(.., {n})"));
            // all patterns at the same count: model via a precomputed position map
            for &x in &pats {
                let got = catch(|| unsafe { f(x, n) } & m);
                let want = shift_model(op, bits, x, n);
                cx.case(n > 0 && x != 0);
                match got {
                    Ok(g) => ensure!(g == want, format!("{name}:{n}"), "{name}(16#{x:X}, {n}) = 16#{g:X}, expected 16#{want:X}"),
                    Err(p) => bail!(format!("{name}:{n}"), "{name}(16#{x:X}, {n}) aborts: {p}"),
                }
            }
            cx.sample(|| format!("{name}(16#{:X}, {n}) = 16#{:X}", pats[pats.len() / 2], shift_model(op, bits, pats[pats.len() / 2], n)));
            Ok(())
        }));
    }
    v
}

fn c24(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    for &(name, bits, signed, swaps, f) in ffi::ENDIAN {
        let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let all32 = bits == 32 && thorough(t);
        let pats = if all32 { vec![] } else { patterns(bits) };
        let n = if all32 { 1u64 << 16 } else { (pats.len() as u64 + 255) / 256 };
        v.push(space(name, n, move |i, cx| {
            let (lo, hi) = if all32 { (i << 16, (i + 1) << 16) } else { (i * 256, ((i + 1) * 256).min(pats.len() as u64)) };
            for k in lo..hi {
                let x = if all32 { k } else { pats[k as usize] };
                let arg = if signed { ((x << (64 - bits)) as i64 >> (64 - bits)) as u64 } else { x };
                let want = if swaps {
                    let mut b = x.to_le_bytes();
                    b[..(bits / 8) as usize].reverse();
                    u64::from_le_bytes(b)
                } else {
                    x
                };
                cx.case(x != 0 && x != m);
                match catch(|| unsafe { f(arg) } & m) {
                    Ok(g) => ensure!(g == want, name, "{name}(16#{x:X}) = 16#{g:X}, expected 16#{want:X}"),
                    Err(p) => bail!(name, "{name}(16#{x:X}) aborts: {p}"),
                }
            }
            cx.sample(|| format!("{name} over patterns {lo}..{hi}"));
            Ok(())
        }));
    }
    for &(name, f) in ffi::ENDIAN32 {
        let all = thorough(t);
        v.push(space(name, 1 << 16, move |i, cx| {
            let mut nt = 0;
            for k in 0..if all { 1u64 << 16 } else { 1 << 12 } {
                let b = (i << 16 | if all { k } else { k << 4 | (k & 15) }) as u32;
                let x = f32::from_bits(b);
                if x.is_nan() {
                    continue; // payloads of NaNs may be changed by the floating point registers
                }
                nt += 1;
                match catch(|| unsafe { f(x) }) {
                    Ok(g) => ensure!(g.to_bits() == b, name, "{name}({x:e}) = {g:e}"),
                    Err(p) => bail!(name, "{name}({x:e}) aborts: {p}"),
                }
            }
            cx.evals += nt;
            cx.nontrivial += nt;
            Ok(())
        }));
    }
    for &(name, f) in ffi::ENDIAN64 {
        v.push(space(name, 4096, move |i, cx| {
            for &p in lreal_mantissas().iter() {
                let b = i << 52 | p;
                let x = f64::from_bits(b);
                if x.is_nan() {
                    continue;
                }
                cx.case(x != 0.0);
                match catch(|| unsafe { f(x) }) {
                    Ok(g) => ensure!(g.to_bits() == b, name, "{name}({x:e}) = {g:e}"),
                    Err(p) => bail!(name, "{name}({x:e}) aborts: {p}"),
                }
            }
            Ok(())
        }));
    }
    v
}

/// mantissa patterns of an LREAL: all single and paired bits, runs, complements
pub fn lreal_mantissas() -> &'static [u64] {
    static M: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    M.get_or_init(|| {
        let m = (1u64 << 52) - 1;
        let mut v = vec![0, m];
        for a in 0..52 {
            v.extend([1u64 << a, !(1u64 << a) & m, (1u64 << a) - 1, m & !((1u64 << a) - 1)]);
            v.extend([(1u64 << a) | 1, (1u64 << a) | (1 << 51)]);
        }
        v.extend([0x5555555555555 & m, 0xaaaaaaaaaaaaa & m, 0x921fb54442d18, 0x5bf0a8b145769]);
        v.sort();
        v.dedup();
        v
    })
}

pub fn bcd_model(mut x: u64, digits: u32) -> bool {
    for _ in 0..digits {
        if x % 16 > 9 {
            return false;
        }
        x /= 16;
    }
    true
}

fn c26(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(space("IS_VALID_BCD__BYTE", 256, |i, cx| {
        cx.case(i > 9);
        let (g, w) = (tri(|| unsafe { ffi::IS_VALID_BCD__BYTE(i as u8) }), bcd_model(i, 2));
        ensure!(g == Some(w), "IS_VALID_BCD__BYTE", "IS_VALID_BCD(BYTE 16#{i:X}) = {g:?}, expected {w}");
        Ok(())
    }));
    v.push(space("IS_VALID_BCD__WORD", 65536, |i, cx| {
        cx.case(i > 9);
        let (g, w) = (tri(|| unsafe { ffi::IS_VALID_BCD__WORD(i as u16) }), bcd_model(i, 4));
        ensure!(g == Some(w), "IS_VALID_BCD__WORD", "IS_VALID_BCD(WORD 16#{i:X}) = {g:?}, expected {w}");
        Ok(())
    }));
    v.push(space("IS_VALID_BCD__DWORD all", 1 << 16, |i, cx| {
        for k in 0..1u64 << 16 {
            let x = i << 16 | k;
            cx.case(x > 9);
            let (g, w) = (tri(|| unsafe { ffi::IS_VALID_BCD__DWORD(x as u32) }), bcd_model(x, 8));
            ensure!(g == Some(w), "IS_VALID_BCD__DWORD", "IS_VALID_BCD(DWORD 16#{x:X}) = {g:?}, expected {w}");
        }
        Ok(())
    }));
    // LWORD: every assignment of digits to every set of up to 4 (quick: 3) positions over 5 backgrounds
    let npos = if thorough(t) { 4 } else { 3 };
    let bgs: [u64; 5] = [0, 0x9999999999999999, 0x1234567890123456, 0x8080808080808080, 0xffffffffffffffff];
    v.push(space("IS_VALID_BCD__LWORD digits", 16u64.pow(npos), move |i, cx| {
        let mut j = i;
        let mut pos = [0usize; 4];
        for p in pos.iter_mut().take(npos as usize) {
            *p = dig(&mut j, 16);
        }
        let ds: &[u64] = if npos == 4 { &[0, 9, 10, 15] } else { &[0, 1, 4, 7, 8, 9, 10, 11, 12, 13, 14, 15] };
        for &bg in &bgs {
            let nd = ds.len() as u64;
            for c in 0..nd.pow(npos) {
                let mut k = c;
                let mut x = bg;
                for &p in pos.iter().take(npos as usize) {
                    let d = ds[dig(&mut k, nd)];
                    x = x & !(15u64 << (4 * p)) | d << (4 * p);
                }
                cx.case(x > 9);
                let (g, w) = (tri(|| unsafe { ffi::IS_VALID_BCD__LWORD(x) }), bcd_model(x, 16));
                ensure!(g == Some(w), "IS_VALID_BCD__LWORD", "IS_VALID_BCD(LWORD 16#{x:X}) = {g:?}, expected {w}");
            }
        }
        Ok(())
    }));
    v.push(space("IS_VALID__REAL all", 1 << 16, |i, cx| {
        for k in 0..1u64 << 16 {
            let b = (i << 16 | k) as u32;
            cx.case(b != 0);
            let (g, w) = (tri(|| unsafe { ffi::IS_VALID__REAL(f32::from_bits(b)) }), (b >> 23) & 255 != 255);
            ensure!(g == Some(w), "IS_VALID__REAL", "IS_VALID(REAL bits 16#{b:08X}) = {g:?}, expected {w}");
        }
        cx.sample(|| format!("REAL bits 16#{i:04X}0000 .. 16#{i:04X}FFFF"));
        Ok(())
    }));
    v.push(space("IS_VALID__LREAL exponents x mantissas", 4096, |i, cx| {
        for &m in lreal_mantissas() {
            let b = i << 52 | m;
            cx.case(b != 0);
            let (g, w) = (tri(|| unsafe { ffi::IS_VALID__LREAL(f64::from_bits(b)) }), (b >> 52) & 2047 != 2047);
            ensure!(g == Some(w), "IS_VALID__LREAL", "IS_VALID(LREAL bits 16#{b:016X}) = {g:?}, expected {w}");
        }
        cx.sample(|| format!("LREAL sign/exponent {i:#x}, {} mantissas", lreal_mantissas().len()));
        Ok(())
    }));
    v
}

fn c28(_t: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(space("DWORD/REAL", 1 << 16, move |i, cx| {
        for k in 0..1u64 << 16 {
            let b = (i << 16 | k) as u32;
            cx.case(b != 0);
            let r = tri(|| unsafe { ffi::DWORD_TO_REAL(b) });
            ensure!(r.map(f32::to_bits) == Some(b), "DWORD_TO_REAL", "DWORD_TO_REAL(16#{b:08X}) has bits {:?}", r.map(f32::to_bits));
            let w = tri(|| unsafe { ffi::REAL_TO_DWORD(f32::from_bits(b)) });
            ensure!(w == Some(b), "REAL_TO_DWORD", "REAL_TO_DWORD(bits 16#{b:08X}) = {w:X?}");
        }
        cx.sample(|| format!("DWORD block {i:#x}"));
        Ok(())
    }));
    v.push(space("LWORD/LREAL", 4096, |i, cx| {
        for &m in lreal_mantissas() {
            let b = i << 52 | m;
            cx.case(b != 0);
            let r = tri(|| unsafe { ffi::LWORD_TO_LREAL(b) });
            ensure!(r.map(f64::to_bits) == Some(b), "LWORD_TO_LREAL", "LWORD_TO_LREAL(16#{b:016X}) has bits {:X?}", r.map(f64::to_bits));
            let w = tri(|| unsafe { ffi::LREAL_TO_LWORD(f64::from_bits(b)) });
            ensure!(w == Some(b), "LREAL_TO_LWORD", "LREAL_TO_LWORD(bits 16#{b:016X}) = {w:X?}");
        }
        cx.sample(|| format!("LREAL exponent {i:#x}"));
        Ok(())
    }));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C23", level: "exploration", exhaustive: true, spaces: c23,
            rule: "one case = one (function, value, count); all values of BYTE/WORD, structured patterns (all bit pairs, all runs of ones, complements, all byte values per lane) of DWORD/LWORD; all counts to 140 (thorough 600) and every power-of-two/ten neighbourhood of the 32-bit count; non-trivial: count and value are not 0",
            assumptions: &["the count reaches the native function as the unsigned 32-bit value declared in ST"] },
        Prop { id: "C24", level: "exploration", exhaustive: true, spaces: c24,
            rule: "one case = one (function, value); all 16-bit values, structured patterns of 32/64-bit types, 2^28 REAL patterns (thorough: all 2^32 values of every 32-bit type and REAL); non-trivial: not all bits equal",
            assumptions: &["little-endian host", "NaN payloads are not compared for REAL/LREAL"] },
        Prop { id: "C26", level: "exploration", exhaustive: true, spaces: c26,
            rule: "one case = one bit pattern; all BYTE/WORD/DWORD, LWORD all digits in every 3 (thorough 4) positions over 5 backgrounds; all 2^32 REAL, LREAL every sign and exponent with structured mantissas; non-trivial: not a single small digit / not zero",
            assumptions: &[] },
        Prop { id: "C28", level: "exploration", exhaustive: true, spaces: c28,
            rule: "one case = one bit pattern in both directions; REAL/DWORD all 2^32 patterns, LREAL/LWORD every sign and exponent with structured mantissas; non-trivial: not zero",
            assumptions: &["SSE floating point registers (no x87 quieting of NaNs)"] },
    ]
}
