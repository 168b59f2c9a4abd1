//! C39: every call ends within a bounded number of steps and a bounded stack.
//! C40: calls leave nothing behind (heap, mappings, descriptors, threads).
//!
//! Both run the same families of calls over the real exports. C39 executes each call under the x86 trap flag and
//! counts its machine instructions and the lowest stack pointer; C40 repeats each call and compares the resources of
//! the process before and after.
use crate::core::*;
use crate::ffi;
use crate::props::{fb, reent};
use crate::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::*};

// ---------------------------------------------------------------- live heap of the process
pub struct Heap;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- families of calls
pub struct Buf {
    a: Vec<u64>,
    b: Vec<u64>,
    d: Vec<u64>,
    out: [u64; 9],
}
impl Buf {
    fn new() -> Buf {
        Buf { a: vec![0; 1 << 14], b: vec![0; 1 << 14], d: vec![0; 1 << 15], out: [0; 9] }
    }
    fn put(v: &mut [u64], s: &[char], wide: bool) {
        unsafe {
            let mut k = 0;
            let (mut u8s, mut u16s) = ([0u8; 4], [0u16; 2]);
            for c in s {
                if wide {
                    for w in c.encode_utf16(&mut u16s) {
                        *(v.as_mut_ptr() as *mut u16).add(k) = *w;
                        k += 1;
                    }
                } else {
                    for w in c.encode_utf8(&mut u8s).bytes() {
                        *(v.as_mut_ptr() as *mut u8).add(k) = w;
                        k += 1;
                    }
                }
            }
            if wide {
                *(v.as_mut_ptr() as *mut u16).add(k) = 0;
            } else {
                *(v.as_mut_ptr() as *mut u8).add(k) = 0;
            }
        }
    }
}
/// receives: what is called, text and list elements among the arguments, product of two lengths, the call
type Probe<'a> = &'a mut dyn FnMut(&dyn Fn() -> String, u64, u64, &mut dyn FnMut()) -> R;
struct Fam {
    name: String,
    len: u64,
    run: Box<dyn Fn(u64, &mut Buf, Probe) -> R>,
}
fn fam(v: &mut Vec<Fam>, name: impl Into<String>, len: usize, run: impl Fn(u64, &mut Buf, Probe) -> R + 'static) {
    v.push(Fam { name: name.into(), len: len as u64, run: Box::new(run) });
}
fn lengths(deep: bool) -> Vec<usize> {
    let mut v: Vec<usize> = if deep { (0..=18).collect() } else { vec![0, 1, 2, 5, 16, 80] };
    v.extend(if deep { vec![31, 64, 80, 81, 128, 255, 256, 600, 1024] } else { vec![1023] });
    v
}
fn texture(k: usize, n: usize) -> Vec<char> {
    (0..n)
        .map(|i| match k {
            0 => ['\u{1f600}', 'x', '\u{e4}'][i % 3],
            1 => 'a',
            2 => (b'a' + (i % 26) as u8) as char,
            _ => ['\u{20ac}', '\u{ffff}'][i % 2],
        })
        .collect()
}
fn fams(deep: bool) -> Vec<Fam> {
    use ffi::*;
    let mut v = vec![];
    let ls = lengths(deep);
    let tx = if deep { 3 } else { 1 };
    // ---- texts: length x texture x count and position
    macro_rules! texts { ($wide:expr; $($name:literal $fl:literal => |$s:ident, $t:ident, $d:ident, $n:ident, $p:ident, $vv:ident| $e:expr;)*) => { $({
        let ls = ls.clone();
        fam(&mut v, $name, ls.len() * tx, move |i, b, probe| {
            let (len, k) = (ls[i as usize / tx], i as usize % tx);
            let l = len as i32;
            let a = texture(k, len);
            Buf::put(&mut b.a, &a, $wide);
            // second operands: one character, half of the text with a different end, the text
            for kind in if deep { 0..3 } else { 1..2 } {
                let mut c = match kind { 0 => texture(k, 1.min(len)), 1 => texture(k, len / 2), _ => a.clone() };
                if kind == 1 {
                    c.push('b');
                }
                Buf::put(&mut b.b, &c, $wide);
                for &(n, p) in &[(l / 2, l / 2), (l, 1), (i32::MAX, i32::MAX), (0, 1), (1, 1), (l / 3, l - l / 3), (l + 1, 1), (i32::MIN, i32::MIN), (i32::MAX, 1), (1, i32::MAX)][..if deep || len <= 16 { 10 } else if len < 1000 { 3 } else { 1 }] {
                    let (s8, t8, d8) = (b.a.as_ptr() as *const u8, b.b.as_ptr() as *const u8, b.d.as_mut_ptr() as *mut u8);
                    let ptrs = [s8, t8, s8, t8];
                    let ($s, $t, $d, $n, $p, $vv) = (s8 as _, t8 as _, d8 as _, n, p, ptrs.as_ptr() as _);
                    let prod = if $fl.contains('x') { (len * c.len()) as u64 } else { 0 };
                    let _ = ($n, $p);
                    probe(&|| format!("{} of {len} characters (texture {k}) with {} characters, {n}, {p}", $name, c.len()), (2 * (len + c.len())) as u64, prod, &mut || unsafe {
                        let _: *const () = $vv;
                        let _ = $e;
                    })?;
                    // functions without count and position
                    if !$fl.contains('n') {
                        break;
                    }
                }
                if !$fl.contains('t') {
                    break;
                }
            }
            Ok(())
        });
    })* } }
    texts! { false;
        "LEN" "" => |s, t, d, n, p, vv| { let _: (*const u8, *mut u8) = (t, d); LEN__STRING(s) };
        "FIND" "tx" => |s, t, d, n, p, vv| { let _: *mut u8 = d; FIND__STRING(s, t) };
        "LEFT" "n" => |s, t, d, n, p, vv| { let _: *const u8 = t; LEFT_EXT__STRING(s, n, d) };
        "RIGHT" "n" => |s, t, d, n, p, vv| { let _: *const u8 = t; RIGHT_EXT__STRING(s, n, d) };
        "MID" "n" => |s, t, d, n, p, vv| { let _: *const u8 = t; MID_EXT__STRING(s, n, p, d) };
        "DELETE" "n" => |s, t, d, n, p, vv| { let _: *const u8 = t; DELETE_EXT__STRING(s, n, p, d) };
        "INSERT" "tn" => |s, t, d, n, p, vv| INSERT_EXT__STRING(s, t, p, d);
        "REPLACE" "tn" => |s, t, d, n, p, vv| REPLACE_EXT__STRING(s, t, n, p, d);
        "CONCAT" "t" => |s, t, d, n, p, vv| { let _: (*const u8, *const u8) = (s, t); CONCAT_EXT__STRING(d, 4, vv as _) };
        "EQ" "t" => |s, t, d, n, p, vv| { let _: (*const u8, *const u8, *mut u8) = (s, t, d); EQ__STRING(4, vv as _) };
        "GE" "t" => |s, t, d, n, p, vv| { let _: (*const u8, *const u8, *mut u8) = (s, t, d); GE__STRING(2, vv as _) };
        "NE" "t" => |s, t, d, n, p, vv| { let _: *mut u8 = d; NE__STRING(s, t) };
        "STRING_TO_WSTRING" "" => |s, t, d, n, p, vv| { let _: *const u8 = t; STRING_TO_WSTRING_EXT(s, d) };
    }
    texts! { true;
        "LEN W" "" => |s, t, d, n, p, vv| { let _: (*const u16, *mut u16) = (t, d); LEN__WSTRING(s) };
        "FIND W" "tx" => |s, t, d, n, p, vv| { let _: *mut u16 = d; FIND__WSTRING(s, t) };
        "LEFT W" "n" => |s, t, d, n, p, vv| { let _: *const u16 = t; LEFT_EXT__WSTRING(s, n, d) };
        "RIGHT W" "n" => |s, t, d, n, p, vv| { let _: *const u16 = t; RIGHT_EXT__WSTRING(s, n, d) };
        "MID W" "n" => |s, t, d, n, p, vv| { let _: *const u16 = t; MID_EXT__WSTRING(s, n, p, d) };
        "DELETE W" "n" => |s, t, d, n, p, vv| { let _: *const u16 = t; DELETE_EXT__WSTRING(s, n, p, d) };
        "INSERT W" "tn" => |s, t, d, n, p, vv| INSERT_EXT__WSTRING(s, t, p, d);
        "REPLACE W" "tn" => |s, t, d, n, p, vv| REPLACE_EXT__WSTRING(s, t, n, p, d);
        "CONCAT W" "t" => |s, t, d, n, p, vv| { let _: (*const u16, *const u16) = (s, t); CONCAT_EXT__WSTRING(d, 4, vv as _) };
        "EQ W" "t" => |s, t, d, n, p, vv| { let _: (*const u16, *const u16, *mut u16) = (s, t, d); EQ__WSTRING(4, vv as _) };
        "LT W" "t" => |s, t, d, n, p, vv| { let _: (*const u16, *const u16, *mut u16) = (s, t, d); LT__WSTRING(2, vv as _) };
        "NE W" "t" => |s, t, d, n, p, vv| { let _: *mut u16 = d; NE__WSTRING(s, t) };
        "WSTRING_TO_STRING" "" => |s, t, d, n, p, vv| { let _: *const u16 = t; WSTRING_TO_STRING_EXT(s, d) };
    }
    // numerals: digits, leading zeros, fractions, exponents
    let mut nums: Vec<String> = vec![];
    for &l in &ls {
        for f in if deep { &["1", "9", "0", "f", "."][..] } else if l < 1000 { &["9", "0"][..] } else { &["9"][..] } {
            let d: String = f.repeat(l);
            for pre in if deep { &["", "-", "16#", "2#", "0.", "1e", "1e-", "-0."][..] } else { &["", "16#", "0.", "1e-"] } {
                nums.push(format!("{pre}{d}"));
            }
            nums.push(format!("{d}.{d}e{}", l));
            nums.push(format!("0.{d}5e-{}", l));
        }
    }
    for e in (-400..=400).step_by(if deep { 1 } else { 50 }) {
        nums.push(format!("1.7976931348623157e{e}"));
        nums.push(format!("9007199254740993e{e}"));
    }
    fam(&mut v, "numerals", nums.len(), move |i, b, probe| {
        let t: Vec<char> = nums[i as usize].chars().collect();
        let n = t.len() as u64;
        Buf::put(&mut b.a, &t, false);
        let p = b.a.as_ptr() as *const u8;
        let head: String = t.iter().take(30).collect();
        probe(&|| format!("STRING_TO_LINT of {n} characters {head}.."), n, 0, &mut || unsafe { drop(STRING_TO_LINT(p)) })?;
        probe(&|| format!("STRING_TO_DINT of {n} characters {head}.."), n, 0, &mut || unsafe { drop(STRING_TO_DINT(p)) })?;
        probe(&|| format!("STRING_TO_LREAL of {n} characters {head}.."), n, 0, &mut || unsafe { drop(STRING_TO_LREAL(p)) })?;
        probe(&|| format!("STRING_TO_REAL of {n} characters {head}.."), n, 0, &mut || unsafe { drop(STRING_TO_REAL(p)) })
    });
    // ---- reals: every exponent
    let mants: Vec<u64> = if deep { vec![0, 0x921f_b544_42d1_8, 0xf_ffff_ffff_fffe] } else { vec![0xf_ffff_ffff_fffe] };
    {
        let m = mants.clone();
        let exps: Vec<u64> = (0..4096).filter(|e| deep || e % 16 == 15 || e % 2048 == 0).collect();
        fam(&mut v, "LREAL values", exps.len(), move |i, b, probe| {
            let i = exps[i as usize];
            for &m in &m {
                let x = f64::from_bits(i << 52 | m);
                for &(n, f) in UN64 {
                    probe(&|| format!("{n}({x:e})"), 0, 0, &mut || unsafe { drop(f(x)) })?;
                }
                let d = b.d.as_mut_ptr() as *mut u8;
                probe(&|| format!("LREAL_TO_STRING({x:e})"), 0, 0, &mut || unsafe { drop(LREAL_TO_STRING_EXT(x, d)) })?;
                probe(&|| format!("REAL_TO_STRING({x:e})"), 0, 0, &mut || unsafe { drop(REAL_TO_STRING_EXT(x, d)) })?;
                for (n, _, f) in fscales_lreal() {
                    probe(&|| format!("{n}(3600000000000, {x:e})"), 0, 0, &mut || unsafe { drop(f(3_600_000_000_000, x)) })?;
                }
                probe(&|| format!("IS_VALID({x:e})"), 0, 0, &mut || unsafe { drop(IS_VALID__LREAL(x)) })?;
            }
            Ok(())
        });
        fam(&mut v, "REAL values", 512, move |i, _, probe| {
            for &m in &mants {
                let x = f32::from_bits((i as u32) << 23 | (m >> 29) as u32);
                for &(n, f) in UN32 {
                    probe(&|| format!("{n}({x:e})"), 0, 0, &mut || unsafe { drop(f(x)) })?;
                }
                for (n, _, f) in fscales_real() {
                    probe(&|| format!("{n}(-3600000000001, {x:e})"), 0, 0, &mut || unsafe { drop(f(-3_600_000_000_001, x)) })?;
                }
            }
            Ok(())
        });
    }
    let bases = [0.0, 1.0, -1.0, 0.5, 1.0000000000000002, -1.5, 2.0, 10.0, 1e-300, -1e300, f64::INFINITY, f64::NAN];
    let exps: Vec<i32> = bounds(32, true).into_iter().map(|x| x as i32).enumerate().filter(|(k, x)| deep || k % 8 == 0 || x.unsigned_abs() > i32::MAX as u32 - 2).map(|x| x.1).collect();
    fam(&mut v, "EXPT with integer exponents", exps.len(), move |i, _, probe| {
        let e = exps[i as usize];
        for x in bases {
            probe(&|| format!("EXPT({x:e}, {e})"), 0, 0, &mut || unsafe { drop(EXPT__LREAL__DINT(x, e)) })?;
            probe(&|| format!("EXPT(REAL {x:e}, {e})"), 0, 0, &mut || unsafe { drop(EXPT__REAL__DINT(x as f32, e)) })?;
        }
        Ok(())
    });
    fam(&mut v, "two reals", 4096 / 16, move |i, _, probe| {
        let x = f64::from_bits(i << 56 | 0x000b_2345_6789_abcd);
        for j in 0..if deep { 256 } else { 8 } {
            let y = f64::from_bits((if deep { j } else { j * 31 }) << 56 | 0x0003_0000_0000_0001);
            probe(&|| format!("EXPT({x:e}, {y:e})"), 0, 0, &mut || unsafe { drop(EXPT__LREAL__LREAL(x, y)) })?;
            probe(&|| format!("EXPT(REAL {x:e}, {y:e})"), 0, 0, &mut || unsafe { drop(EXPT__REAL__REAL(x as f32, y as f32)) })?;
            probe(&|| format!("ATAN2({x:e}, {y:e})"), 0, 0, &mut || unsafe { drop(ATAN2__LREAL(x, y)) })?;
            probe(&|| format!("ATAN2(REAL {x:e}, {y:e})"), 0, 0, &mut || unsafe { drop(ATAN2__REAL(x as f32, y as f32)) })?;
        }
        Ok(())
    });
    // ---- integers, dates and times
    let w: Vec<i64> = bounds(64, true).into_iter().map(|x| x as i64).collect();
    let all = w.clone();
    let w: Vec<i64> = w.into_iter().enumerate().filter(|(k, x)| deep || k % 12 == 0 || [i64::MIN, i64::MAX].contains(x)).map(|x| x.1).collect();
    {
        let w = w.clone();
        fam(&mut v, "64-bit values", w.len(), move |i, b, probe| {
            let x = w[i as usize];
            let d = b.d.as_mut_ptr() as *mut u8;
            macro_rules! one { ($($n:ident => $e:expr;)*) => { $( probe(&|| format!("{}({x})", stringify!($n)), 0, 0, &mut || unsafe { let _ = $e; })?; )* } }
            one! {
                LINT_TO_STRING => LINT_TO_STRING_EXT(x, d);
                LWORD_TO_STRING => LWORD_TO_STRING_EXT(x as u64, d);
                BYTE_TO_STRING => BYTE_TO_STRING_EXT(x as u8, d);
                TIME_TO_STRING => TIME_TO_STRING_EXT(x, d);
                DT_TO_STRING => DT_TO_STRING_EXT(x, d);
                DATE_TO_STRING => DATE_TO_STRING_EXT(x, d);
                TOD_TO_STRING => TOD_TO_STRING_EXT(x, d);
                DATE_AND_TIME_TO_DATE => DATE_AND_TIME_TO_DATE(x);
                DATE_AND_TIME_TO_TIME_OF_DAY => DATE_AND_TIME_TO_TIME_OF_DAY(x);
                DAY_OF_WEEK => DAY_OF_WEEK(x);
                IS_VALID_BCD => (IS_VALID_BCD__LWORD(x as u64), IS_VALID_BCD__DWORD(x as u32), IS_VALID_BCD__WORD(x as u16), IS_VALID_BCD__BYTE(x as u8));
                LWORD_TO_LREAL => (LWORD_TO_LREAL(x as u64), LREAL_TO_LWORD(f64::from_bits(x as u64)), DWORD_TO_REAL(x as u32), REAL_TO_DWORD(f32::from_bits(x as u32)));
                WCHAR_TO_CHAR => (WCHAR_TO_CHAR(x as u16), CHAR_TO_WCHAR(x as u8));
            }
            for l in [split_dates(), split_tods(), split_dts()] {
                for (n, _, f) in l {
                    let out = &mut b.out;
                    probe(&|| format!("{n}({x})"), 0, 0, &mut || drop(f(x, out)))?;
                }
            }
            for &(n, _, _, _, f) in ENDIAN {
                probe(&|| format!("{n}({x})"), 0, 0, &mut || unsafe { drop(f(x as u64)) })?;
            }
            for &(n, _, _, f) in SHIFTS {
                for c in [0, 1, 63, 64, 1000, x as u32, u32::MAX] {
                    probe(&|| format!("{n}({x}, {c})"), 0, 0, &mut || unsafe { drop(f(x as u64, c)) })?;
                }
            }
            set_real(x);
            probe(&|| format!("TIME() at {x}"), 0, 0, &mut || unsafe { drop(TIME()) })
        });
    }
    let few: Vec<i64> = all.iter().copied().enumerate().filter(|(i, x)| i % if deep { 10 } else { 97 } == 0 || [i64::MIN, i64::MAX, 0, -1, 1].contains(x)).map(|x| x.1).collect();
    {
        let few = few.clone();
        fam(&mut v, "pairs of times", few.len(), move |i, _, probe| {
            let x = few[i as usize];
            for &y in &few {
                macro_rules! two { ($($n:ident)*) => { $( probe(&|| format!("{}({x}, {y})", stringify!($n)), 0, 0, &mut || unsafe { drop($n(x, y)) })?; )* } }
                two! { ADD_TIME ADD_TOD_TIME ADD_DT_TIME SUB_TIME SUB_DATE_DATE SUB_TOD_TIME SUB_TOD_TOD SUB_DT_TIME SUB_DT_DT CONCAT_DATE_TOD }
                for (n, ty, _, f) in scales() {
                    let k = if ty.signed { y as i128 } else { y as u64 as i128 };
                    let k = if ty.has(k) { k } else if ty.bits < 64 { k.rem_euclid(1 << (ty.bits - 1)) } else { k };
                    probe(&|| format!("{n}({x}, {k})"), 0, 0, &mut || drop(f(x, k)))?;
                }
            }
            Ok(())
        });
    }
    fam(&mut v, "components", few.len(), move |i, _, probe| {
        let x = few[i as usize] as i128;
        for c in [[x, 1, 1, 0], [2000, x, 1, 0], [2000, 2, x, 0], [12, x, 30, 1], [12, 30, x, 1], [12, 30, 15, x], [x, x, x, x]] {
            for (n, ty, f) in concat_dates().into_iter().chain(concat_tods()) {
                if c.iter().all(|x| ty.has(*x)) {
                    probe(&|| format!("{n}({c:?})"), 0, 0, &mut || drop(f(c)))?;
                }
            }
        }
        Ok(())
    });
    // ---- lists
    macro_rules! lists { ($($l:ident $t:ty),*) => { $( for &(ty, mx, mn, lim) in $l {
        let ls = ls.clone();
        fam(&mut v, format!("lists of {ty}"), ls.len() - 1, move |i, b, probe| {
            let n = ls[i as usize + 1];
            for k in 0..3 {
                let p = b.a.as_mut_ptr() as *mut $t;
                for j in 0..n {
                    unsafe { *p.add(j) = [j % 97, 97 - j % 97, 5][k] as u8 as $t }
                }
                probe(&|| format!("MAX__{ty} of {n}"), n as u64, 0, &mut || unsafe { let _ = mx(n as u32, p); })?;
                probe(&|| format!("MIN__{ty} of {n}"), n as u64, 0, &mut || unsafe { let _ = mn(n as u32, p); })?;
                probe(&|| format!("LIMIT__{ty}"), 0, 0, &mut || unsafe { let _ = lim(1 as $t, *p, 50 as $t); })?;
            }
            Ok(())
        });
    } )* } }
    lists!(SEL_U8 u8, SEL_U16 u16, SEL_U32 u32, SEL_U64 u64, SEL_I8 i8, SEL_I16 i16, SEL_I32 i32, SEL_I64 i64, SEL_F32 f32, SEL_F64 f64);
    // ---- function blocks: every sequence of two or three inputs, the clock far apart between calls
    for &(n, f) in FBS {
        let inst = fb::inst(n);
        let k = inst.ops.len();
        let timer = n.starts_with('T');
        let gaps: &'static [i64] = if timer { &[0, 1, 999_999_999, 1 << 31, 1 << 53, i64::MAX / 4] } else { &[0] };
        let depth = if k * k * k * gaps.len() > 3000 && !deep { 2 } else { 3 };
        fam(&mut v, format!("histories of {n}"), k.pow(depth) * gaps.len(), move |mut i, _, probe| {
            let gap = gaps[dig(&mut i, gaps.len() as u64)];
            let h: Vec<usize> = (0..depth).map(|_| dig(&mut i, k as u64)).collect();
            let mut mem = [0u64; 16];
            let p = mem.as_mut_ptr() as *mut u8;
            for (t, &o) in h.iter().enumerate() {
                for &(at, w, x) in &inst.ops[o] {
                    unsafe { std::ptr::copy_nonoverlapping(x.to_le_bytes().as_ptr(), p.add(at), w) };
                }
                set_mono(5 + gap * t as i64);
                probe(&|| format!("{n}, call {t} of {h:?}, {gap} ns between calls"), 0, 0, &mut || unsafe { f(p) })?;
            }
            Ok(())
        });
    }
    v
}

// ---------------------------------------------------------------- C39
static mut STEPS: u64 = 0;
static mut CAP: u64 = 0;
static mut LOW: u64 = u64::MAX;
static PANICKED: AtomicBool = AtomicBool::new(false);
extern "C" {
    fn sigaction(s: i32, a: *const [u64; 19], o: *mut [u64; 19]) -> i32;
}
unsafe extern "C" fn on_trap(_: i32, _: *mut u8, uc: *mut u8) {
    let g = uc.add(40) as *mut u64;
    STEPS += 1;
    let sp = *g.add(15);
    if sp < LOW {
        LOW = sp;
    }
    if STEPS > CAP || PANICKED.load(Relaxed) {
        *g.add(17) &= !0x100;
    }
}
fn trace_init() {
    use std::sync::OnceLock;
    static ONCE: OnceLock<()> = OnceLock::new();
    ONCE.get_or_init(|| unsafe {
        std::env::set_var("TZ", "<+0530>-5:30");
        std::panic::set_hook(Box::new(|_| PANICKED.store(true, Relaxed)));
        let mut sa = [0u64; 19];
        sa[0] = on_trap as usize as u64;
        sa[17] = 4 | 0x4000_0000; // SA_SIGINFO | SA_NODEFER
        assert_eq!(sigaction(5, &sa, std::ptr::null_mut()), 0);
        // one-time initialisations of the process are not the call's
        set_real(1_600_000_000_000_000_000);
        let _ = tri(|| ffi::TIME());
        let _ = tri(|| panic!("x"));
    });
}
/// instructions and bytes of stack of one call, up to the abort if it aborts
fn measure(cap: u64, f: &mut dyn FnMut()) -> (u64, u64, bool) {
    trace_init();
    unsafe {
        STEPS = 0;
        CAP = cap;
        LOW = u64::MAX;
        PANICKED.store(false, Relaxed);
        let mut top = 0u64;
        let r = tri(|| {
            std::arch::asm!("mov {}, rsp", out(reg) top);
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            f();
            std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq");
        });
        if r.is_none() {
            std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq");
        }
        (STEPS, top.saturating_sub(LOW), r.is_none())
    }
}
const BASE: u64 = 400_000;
const PER: u64 = 5_000;
const PROD: u64 = 100;
const STACK: u64 = 64 << 10;
fn bounded(cx: &mut Ctx, what: &dyn Fn() -> String, units: u64, prod: u64, f: &mut dyn FnMut()) -> R {
    cx.describe(what);
    let cap = BASE + PER * units + PROD * prod;
    let (n, s, aborted) = measure(cap, f);
    cx.case(!aborted);
    cx.transitions += n;
    cx.traces += 1;
    cx.max("instructions of one call without texts or lists", if units == 0 { n } else { 0 });
    cx.max("instructions per element of texts and lists beyond 255", if units > 255 && prod == 0 { n / units } else { 0 });
    cx.max("instructions per product of two lengths beyond 10000", if prod > 10_000 { n / prod } else { 0 });
    cx.max("instructions of one call", n);
    cx.max("thousandths of the bound used", n * 1000 / cap);
    cx.max("stack of one call (bytes)", s);
    if aborted {
        cx.count("aborting calls", 1);
    }
    let key = || what().split(['(', ' ', ',']).next().unwrap().to_string();
    cx.sample(|| format!("{}: {n} instructions, {s} bytes of stack", what()));
    ensure!(n <= cap, key(), "{} has not ended after {cap} instructions", what());
    ensure!(s <= STACK, key(), "{} uses {s} bytes of stack", what());
    Ok(())
}
fn c39(t: Tier) -> Vec<Space> {
    // the deep families in the optimised build only: a call of the other takes several times as many instructions
    let deep = thorough(t) && !cfg!(debug_assertions);
    let mut v: Vec<Space> = fams(deep)
        .into_iter()
        .map(|f| {
            let run = f.run;
            space(f.name, f.len, move |i, cx| {
                trace_init();
                let mut b = Buf::new();
                run(i, &mut b, &mut |what, u, p, call| {
                    cx.beat();
                    bounded(cx, what, u, p, call)
                })
            })
        })
        .collect();
    let n = reent::calls();
    v.push(space("representative calls", n as u64, move |i, cx| {
        trace_init();
        reent::with_call(i as usize, &mut |name, call| bounded(cx, &|| name.to_string(), 200, 0, call))
    }));
    v
}

// ---------------------------------------------------------------- C40
fn entries(dir: &str) -> i64 {
    std::fs::read_dir(dir).map(|d| d.count() as i64).unwrap_or(0)
}
fn mapped() -> i64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').next().and_then(|x| x.parse::<i64>().ok())).unwrap_or(0) * 4096
}
/// repeats the call; the heap may not grow with the number of calls, nor descriptors, threads and mappings
fn repeated(cx: &mut Ctx, what: &dyn Fn() -> String, system: bool, f: &mut dyn FnMut()) -> R {
    cx.describe(what);
    let t0 = tri(|| f()).is_none();
    cx.case(!t0);
    cx.sample(|| format!("{} again and again", what()));
    let (warm, n) = match (system, t0) {
        (true, false) => (20, 2000),
        (true, true) => (20, 300),
        (false, false) => (3, 40),
        (false, true) => (2, 12),
    };
    for _ in 0..warm {
        let _ = tri(|| f());
    }
    let sys = |on: bool| if on { (entries("/proc/self/fd"), entries("/proc/self/task"), mapped()) } else { (0, 0, 0) };
    let s0 = sys(system);
    let l0 = LIVE.load(Relaxed);
    for _ in 0..n {
        let _ = tri(|| f());
    }
    let l1 = LIVE.load(Relaxed);
    let s1 = sys(system);
    cx.transitions += n as u64;
    cx.traces += 1;
    let key = || what().split(['(', ' ', ',']).next().unwrap().to_string();
    ensure!(l1 - l0 < n / 2, key(), "{}: {} more bytes of heap in use after {n} more calls", what(), l1 - l0);
    ensure!(s1.0 - s0.0 < n / 4, key(), "{}: {} more open files after {n} more calls", what(), s1.0 - s0.0);
    ensure!(s1.1 - s0.1 < n / 4, key(), "{}: {} more threads after {n} more calls", what(), s1.1 - s0.1);
    ensure!(s1.2 - s0.2 < n * 2048, key(), "{}: {} more bytes mapped after {n} more calls", what(), s1.2 - s0.2);
    Ok(())
}
fn c40(t: Tier) -> Vec<Space> {
    let deep = thorough(t);
    let mut v = vec![];
    let n = reent::calls();
    v.push(space("long runs of one call", n as u64, move |i, cx| {
        std::env::set_var("TZ", "<+0530>-5:30");
        reent::with_call(i as usize, &mut |name, call| repeated(cx, &|| name.to_string(), true, call))
    }));
    // calls with ever different arguments: what is kept for each of them adds up
    let n = fams(true).len();
    v.push(space("runs of different calls", n as u64, move |i, cx| {
        std::env::set_var("TZ", "<+0530>-5:30");
        let f = &fams(true)[i as usize];
        let mut b = Buf::new();
        let mut kept: std::collections::BTreeMap<String, (i64, i64)> = Default::default();
        for k in 0..f.len {
            cx.beat();
            (f.run)(k, &mut b, &mut |what, _, _, call| {
                cx.describe(what);
                let l0 = LIVE.load(Relaxed);
                let _ = tri(|| call());
                let grown = LIVE.load(Relaxed) - l0;
                cx.transitions += 1;
                let e = kept.entry(what().split(['(', ' ', ',']).next().unwrap().to_string()).or_insert((0, 0));
                *e = (e.0 + grown, e.1 + 1);
                Ok(())
            })?;
        }
        for (name, (bytes, calls)) in &kept {
            cx.traces += 1;
            cx.case(true);
            ensure!(*bytes < 16384 + 8 * calls, name.clone(), "{name}: {bytes} more bytes of heap in use after {calls} calls with different arguments ({})", f.name);
        }
        Ok(())
    }));
    v.extend(fams(true).into_iter().map(|f| {
        let run = f.run;
        space(f.name, f.len, move |i, cx| {
            std::env::set_var("TZ", "<+0530>-5:30");
            let mut b = Buf::new();
            run(i, &mut b, &mut |what, _, _, call| {
                cx.beat();
                repeated(cx, what, deep, call)
            })
        })
    }));
    v
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C39", level: "exploration", exhaustive: true, spaces: c39,
            rule: "a case is a call of an exported function or block executed instruction by instruction under the trap flag; non-trivial when it returns; coverage.transitions are the machine instructions executed",
            assumptions: &["one machine instruction is one step; system calls count as one", "an aborting call is counted up to the abort: the unwinding belongs to the runtime", "the first call of a process (one-time initialisation) is not counted"] },
        Prop { id: "C40", level: "exploration", exhaustive: true, spaces: c40,
            rule: "a case is a call repeated with the same arguments; non-trivial when it returns; coverage.transitions are the repeated calls",
            assumptions: &["heap is what goes through Rust's allocator", "growth that stops within the first calls (a cache) is not a leak"] },
    ]
}
