//! C30: no call affects another, past or concurrent.
//!
//! (a) histories: every ordered pair (thorough: triple) of representative calls in one process must give
//!     exactly what each gives as the first call of a fresh process (forked before any library call), and so
//!     must long runs of the same calls;
//! (b) preemption: call A runs in one thread under the x86 trap flag, so that the harness regains control after
//!     every instruction, and hands over to call B in a second thread there: after exactly k instructions for
//!     every k (B runs whole, or up to its j-th instruction), after every instruction, and in lockstep.
use crate::core::*;
use crate::ffi;
use crate::props::fb;
use crate::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU32, AtomicU64, Ordering::*};
use std::sync::OnceLock;

// ---------------------------------------------------------------- arenas and representative calls
#[repr(C, align(64))]
pub struct Arena {
    inst: [u64; 16],
    a: [u64; 64],
    b: [u64; 64],
    d: [u64; 64],
    out: [u64; 9],
    n: i32,
    p: i32,
    ptrs: [*const u8; 4],
    trace: bool,
}
impl Arena {
    fn new() -> Box<Arena> {
        Box::new(Arena { inst: [0; 16], a: [0; 64], b: [0; 64], d: [0; 64], out: [0; 9], n: 0, p: 0, ptrs: [std::ptr::null(); 4], trace: false })
    }
    fn a8(&self) -> *const u8 {
        self.a.as_ptr() as _
    }
    fn b8(&self) -> *const u8 {
        self.b.as_ptr() as _
    }
    fn d8(&mut self) -> *mut u8 {
        self.d.as_mut_ptr() as _
    }
    fn a16(&self) -> *const u16 {
        self.a.as_ptr() as _
    }
    fn b16(&self) -> *const u16 {
        self.b.as_ptr() as _
    }
    fn d16(&mut self) -> *mut u16 {
        self.d.as_mut_ptr() as _
    }
    fn v8(&self) -> *const *const u8 {
        self.ptrs.as_ptr()
    }
    fn v16(&self) -> *const *const u16 {
        self.ptrs.as_ptr() as _
    }
    #[inline(always)]
    fn on(&self) {
        if self.trace {
            unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
        }
    }
    #[inline(always)]
    fn off(&self) {
        if self.trace {
            unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq") }
        }
    }
}
macro_rules! go {
    ($ar:ident, $e:expr) => {{
        $ar.on();
        let r = unsafe { $e };
        $ar.off();
        r
    }};
}
fn text(ar: &mut Arena, a: &str, b: &str, wide: bool) {
    for (s, k) in [(a, 0), (b, 1)] {
        let dst = if k == 0 { &mut ar.a } else { &mut ar.b };
        unsafe {
            if wide {
                let p = dst.as_mut_ptr() as *mut u16;
                let v: Vec<u16> = s.encode_utf16().chain([0]).collect();
                std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
            } else {
                let p = dst.as_mut_ptr() as *mut u8;
                std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
                *p.add(s.len()) = 0;
            }
        }
    }
    ar.ptrs = [ar.a8(), ar.b8(), ar.a8(), ar.b8()];
}
type Prep = Box<dyn Fn(&mut Arena) + Send + Sync>;
type Call = Box<dyn Fn(&mut Arena) -> u64 + Send + Sync>;
pub struct Rep {
    name: String,
    group: usize,
    prep: Prep,
    call: Call,
    /// partner of every other call in the preemption search
    core: bool,
    /// takes part in the preemption search
    pre: bool,
    /// reads or writes texts in memory
    text: bool,
}
#[repr(C)]
#[derive(Clone, PartialEq)]
pub struct Out {
    state: u64, // 1 returned, 2 aborted
    ret: u64,
    a: [u64; 64],
    b: [u64; 64],
    d: [u64; 64],
    out: [u64; 9],
}
fn perform(r: &Rep, ar: &mut Arena, trace: bool) -> Out {
    ar.inst = [0; 16];
    ar.a = [0x5555_5555_5555_5555; 64];
    ar.b = [0x6666_6666_6666_6666; 64];
    ar.d = [0xd0d0_d0d0_d0d0_d0d0; 64];
    ar.out = [0xeeee_eeee_eeee_eeee; 9];
    ar.n = 0;
    ar.p = 0;
    ar.trace = false;
    (r.prep)(ar);
    ar.trace = trace;
    let v = tri(|| (r.call)(ar));
    if v.is_none() {
        ar.off();
    }
    ar.trace = false;
    Out {
        state: if v.is_some() { 1 } else { 2 },
        ret: v.unwrap_or(0),
        a: ar.a,
        b: ar.b,
        d: if v.is_some() { ar.d } else { [0; 64] },
        out: if v.is_some() { ar.out } else { [0; 9] },
    }
}
/// The same call with the variables a task keeps using: what earlier calls and assignments left behind the end of
/// a text stays there. Everything the call writes must be as in a fresh process, everything else unchanged.
fn perform_kept(r: &Rep, ar: &mut Arena, w: &Out) -> Out {
    ar.inst = [0; 16];
    ar.out = [0xeeee_eeee_eeee_eeee; 9];
    (ar.n, ar.p, ar.trace) = (0, 0, false);
    (r.prep)(ar);
    let before = (ar.a, ar.b, ar.d);
    let v = tri(|| (r.call)(ar));
    let bytes = |x: [u64; 64]| -> [u8; 512] { unsafe { std::mem::transmute(x) } };
    // bytes a fresh process leaves alone (or fills with the fill pattern) are compared with what was there
    let (was, is, fresh) = (bytes(before.2), bytes(ar.d), bytes(w.d));
    let mut d = fresh;
    for k in 0..512 {
        if !(is[k] == fresh[k] || fresh[k] == 0xd0 && is[k] == was[k]) {
            d[k] = is[k];
        }
    }
    let mut o = Out { state: if v.is_some() { 1 } else { 2 }, ret: v.unwrap_or(0), a: w.a, b: w.b, d: [0; 64], out: [0; 9] };
    if o.state == 1 {
        (o.d, o.out) = (unsafe { std::mem::transmute::<[u8; 512], [u64; 64]>(d) }, ar.out);
    }
    if ar.a != before.0 {
        o.a = ar.a;
    }
    if ar.b != before.1 {
        o.b = ar.b;
    }
    o
}
fn differs(o: &Out, w: &Out) -> String {
    if o.state != w.state {
        return format!("{}, alone in a fresh process it {}", ["", "returns", "aborts"][o.state as usize], ["", "returns", "aborts"][w.state as usize]);
    }
    if o.ret != w.ret {
        return format!("returns 16#{:X}, alone in a fresh process 16#{:X}", o.ret, w.ret);
    }
    if o.a != w.a || o.b != w.b {
        return "changes its source operands".into();
    }
    let show = |d: &[u64; 64]| {
        let b: Vec<u8> = d.iter().flat_map(|x| x.to_le_bytes()).take(96).collect();
        String::from_utf8_lossy(&b).to_string()
    };
    if o.d != w.d {
        return format!("leaves {:?} in the destination, alone in a fresh process {:?}", show(&o.d), show(&w.d));
    }
    format!("leaves {:x?} in its outputs, alone in a fresh process {:x?}", o.out, w.out)
}

fn reps() -> &'static Vec<Rep> {
    static V: OnceLock<Vec<Rep>> = OnceLock::new();
    V.get_or_init(build_reps)
}
fn build_reps() -> Vec<Rep> {
    let mut v: Vec<Rep> = vec![];
    let mut group = 0usize;
    type Args = (&'static str, &'static str, i32, i32);
    const LONG: &str = "the quick brown fox jumps over the lazy dog, then it sleeps all day in the sun";
    let args: &[Args] = &[
        ("hello world", "lo w", 3, 2),
        ("h\u{e4}llo w\u{f6}rld\u{20ac}", "\u{f6}rld", 2, 4),
        ("hello", "zz", 99, 99),
        ("\u{1f600}abc\u{1f600}", "c\u{1f600}", 1, 1),
        (LONG, "sleeps", 40, 7),
        ("", "", 0, 1),
        ("abcab", "ab", -1, 1),
        ("hello", "hello", 5, 1),
        ("World hello", "lo w", 3, 2),
        ("hello", "world", 5, 1),
    ];
    macro_rules! strs {
        ($wide:expr, $core:expr; $($name:literal => |$ar:ident| $e:expr;)*) => { $({
            group += 1;
            for (k, &(a, b, n, p)) in args.iter().enumerate() {
                v.push(Rep {
                    name: format!("{}({a:?}, {b:?}, {n}, {p})", $name),
                    group,
                    prep: Box::new(move |ar| { text(ar, a, b, $wide); ar.n = n; ar.p = p; }),
                    call: Box::new(|$ar| go!($ar, $e) as u64),
                    core: $core && (k == 0 || k == 2),
                    pre: k <= 2,
                    text: true,
                });
            }
        })* };
    }
    use ffi::*;
    strs! { false, true;
        "LEFT" => |r| LEFT_EXT__STRING(r.a8(), r.n, r.d8());
        "INSERT" => |r| INSERT_EXT__STRING(r.a8(), r.b8(), r.p, r.d8());
        "CONCAT" => |r| CONCAT_EXT__STRING(r.d8(), 4, r.v8());
        "EQ" => |r| EQ__STRING(3, r.v8());
        "STRING_TO_WSTRING" => |r| STRING_TO_WSTRING_EXT(r.a8(), r.d16());
    }
    strs! { true, true;
        "REPLACE W" => |r| REPLACE_EXT__WSTRING(r.a16(), r.b16(), r.n, r.p, r.d16());
        "FIND W" => |r| FIND__WSTRING(r.a16(), r.b16());
    }
    strs! { false, false;
        "RIGHT" => |r| RIGHT_EXT__STRING(r.a8(), r.n, r.d8());
        "MID" => |r| MID_EXT__STRING(r.a8(), r.n, r.p, r.d8());
        "DELETE" => |r| DELETE_EXT__STRING(r.a8(), r.n, r.p, r.d8());
        "REPLACE" => |r| REPLACE_EXT__STRING(r.a8(), r.b8(), r.n, r.p, r.d8());
        "CONCAT()" => |r| { CONCAT__STRING(r.d8(), 2, r.v8()); 0 };
        "LEN" => |r| LEN__STRING(r.a8());
        "FIND" => |r| FIND__STRING(r.a8(), r.b8());
        "GT" => |r| GT__STRING(2, r.v8());
        "GE" => |r| GE__STRING(2, r.v8());
        "LE" => |r| LE__STRING(2, r.v8());
        "LT" => |r| LT__STRING(2, r.v8());
        "NE" => |r| NE__STRING(r.a8(), r.b8());
    }
    strs! { true, false;
        "LEFT W" => |r| LEFT_EXT__WSTRING(r.a16(), r.n, r.d16());
        "RIGHT W" => |r| RIGHT_EXT__WSTRING(r.a16(), r.n, r.d16());
        "MID W" => |r| MID_EXT__WSTRING(r.a16(), r.n, r.p, r.d16());
        "INSERT W" => |r| INSERT_EXT__WSTRING(r.a16(), r.b16(), r.p, r.d16());
        "DELETE W" => |r| DELETE_EXT__WSTRING(r.a16(), r.n, r.p, r.d16());
        "CONCAT W" => |r| CONCAT_EXT__WSTRING(r.d16(), 4, r.v16());
        "CONCAT() W" => |r| { CONCAT__WSTRING(r.d16(), 2, r.v16()); 0 };
        "LEN W" => |r| LEN__WSTRING(r.a16());
        "GT W" => |r| GT__WSTRING(2, r.v16());
        "GE W" => |r| GE__WSTRING(2, r.v16());
        "EQ W" => |r| EQ__WSTRING(3, r.v16());
        "LE W" => |r| LE__WSTRING(2, r.v16());
        "LT W" => |r| LT__WSTRING(2, r.v16());
        "NE W" => |r| NE__WSTRING(r.a16(), r.b16());
        "WSTRING_TO_STRING" => |r| WSTRING_TO_STRING_EXT(r.a16(), r.d8());
    }
    // scalar arguments: one closure per value
    macro_rules! vals {
        ($core:expr; $($name:ident ($($x:expr),*) => |$ar:ident, $y:ident| $e:expr;)*) => { $({
            group += 1;
            for (k, x) in [$($x),*].into_iter().enumerate() {
                v.push(Rep {
                    name: format!("{}({x:?})", stringify!($name)),
                    group,
                    prep: Box::new(|_| {}),
                    call: Box::new(move |$ar| { let $y = x; go!($ar, $e) as u64 }),
                    core: $core && k == 0,
                    pre: k <= 1,
                    text: stringify!($name).ends_with("TO_STRING"),
                });
            }
        })* };
    }
    const DAY: i64 = 86_400_000_000_000;
    vals! { true;
        LREAL_TO_STRING(1234.5678f64, -9.87e200, 0.0, f64::NAN, 1e13) => |r, x| LREAL_TO_STRING_EXT(x, r.d8());
        TIME_TO_STRING(-90_061_001_002_003i64, 5, 0, i64::MAX, DAY) => |r, x| TIME_TO_STRING_EXT(x, r.d8());
        DT_TO_STRING(1_600_000_000_123_456_789i64, -1, 0, i64::MIN) => |r, x| DT_TO_STRING_EXT(x, r.d8());
    }
    vals! { false;
        BYTE_TO_STRING(200u8, 7, 0) => |r, x| BYTE_TO_STRING_EXT(x, r.d8());
        LWORD_TO_STRING(u64::MAX, 42, 0) => |r, x| LWORD_TO_STRING_EXT(x, r.d8());
        LINT_TO_STRING(i64::MIN, 42, 0, -1) => |r, x| LINT_TO_STRING_EXT(x, r.d8());
        REAL_TO_STRING(3.25f64, -1e30, 0.0) => |r, x| REAL_TO_STRING_EXT(x, r.d8());
        DATE_TO_STRING(1_599_955_200_000_000_000i64, -DAY, 0) => |r, x| DATE_TO_STRING_EXT(x, r.d8());
        TOD_TO_STRING(45_296_789_000_000i64, 1, 0) => |r, x| TOD_TO_STRING_EXT(x, r.d8());
        WCHAR_TO_CHAR(0x20acu16, 0x41, 0) => |r, x| WCHAR_TO_CHAR(x);
        CHAR_TO_WCHAR(0xe4u8, 0x41, 0) => |r, x| CHAR_TO_WCHAR(x);
        DATE_AND_TIME_TO_DATE(1_600_000_000_123_456_789i64, -1, i64::MIN) => |r, x| DATE_AND_TIME_TO_DATE(x);
        DATE_AND_TIME_TO_TIME_OF_DAY(1_600_000_000_123_456_789i64, -1, i64::MIN) => |r, x| DATE_AND_TIME_TO_TIME_OF_DAY(x);
        DAY_OF_WEEK(1_599_955_200_000_000_000i64, -DAY, 0) => |r, x| DAY_OF_WEEK(x);
        ADD_TIME((5i64, 7i64), (i64::MAX, 1), (-5, 5)) => |r, x| ADD_TIME(x.0, x.1);
        ADD_TOD_TIME((5i64, 7i64), (i64::MAX, 1), (-5, 5)) => |r, x| ADD_TOD_TIME(x.0, x.1);
        ADD_DT_TIME((5i64, 7i64), (i64::MAX, 1), (-5, 5)) => |r, x| ADD_DT_TIME(x.0, x.1);
        SUB_TIME((5i64, 7i64), (i64::MIN, 1), (-5, 5)) => |r, x| SUB_TIME(x.0, x.1);
        SUB_DATE_DATE((5 * DAY, DAY), (i64::MIN, DAY), (0, 0)) => |r, x| SUB_DATE_DATE(x.0, x.1);
        SUB_TOD_TIME((5i64, 7i64), (i64::MIN, 1), (-5, 5)) => |r, x| SUB_TOD_TIME(x.0, x.1);
        SUB_TOD_TOD((5i64, 7i64), (i64::MIN, 1), (-5, 5)) => |r, x| SUB_TOD_TOD(x.0, x.1);
        SUB_DT_TIME((5i64, 7i64), (i64::MIN, 1), (-5, 5)) => |r, x| SUB_DT_TIME(x.0, x.1);
        SUB_DT_DT((5i64, 7i64), (i64::MIN, 1), (-5, 5)) => |r, x| SUB_DT_DT(x.0, x.1);
        CONCAT_DATE_TOD((5 * DAY, 7i64), (i64::MAX, 1), (-5 * DAY, 5)) => |r, x| CONCAT_DATE_TOD(x.0, x.1);
        EXPT_REAL_DINT((1.5f32, 7i32), (2.0, -3)) => |r, x| EXPT__REAL__DINT(x.0, x.1).to_bits();
        EXPT_LREAL_DINT((1.5f64, 7i32), (2.0, -3)) => |r, x| EXPT__LREAL__DINT(x.0, x.1).to_bits();
        EXPT_REAL_REAL((1.5f32, 7.5f32), (2.0, -3.0)) => |r, x| EXPT__REAL__REAL(x.0, x.1).to_bits();
        EXPT_REAL_LREAL((1.5f32, 7.5f64), (2.0, -3.0)) => |r, x| EXPT__REAL__LREAL(x.0, x.1).to_bits();
        EXPT_LREAL_REAL((1.5f64, 7.5f32), (2.0, -3.0)) => |r, x| EXPT__LREAL__REAL(x.0, x.1).to_bits();
        EXPT_LREAL_LREAL((1.5f64, 7.5f64), (2.0, -3.0)) => |r, x| EXPT__LREAL__LREAL(x.0, x.1).to_bits();
        ATAN2_REAL((1.5f32, 7.5f32), (2.0, -3.0)) => |r, x| ATAN2__REAL(x.0, x.1).to_bits();
        ATAN2_LREAL((1.5f64, 7.5f64), (2.0, -3.0)) => |r, x| ATAN2__LREAL(x.0, x.1).to_bits();
        LWORD_TO_LREAL(1u64, u64::MAX, 1 << 62) => |r, x| LWORD_TO_LREAL(x).to_bits();
        DWORD_TO_REAL(1u32, 0x7f80_0000, 1 << 30) => |r, x| DWORD_TO_REAL(x).to_bits();
        LREAL_TO_LWORD(1.5f64, -0.0) => |r, x| LREAL_TO_LWORD(x);
        REAL_TO_DWORD(1.5f32, -0.0) => |r, x| REAL_TO_DWORD(x);
        IS_VALID_REAL(1.5f32, f32::NAN) => |r, x| IS_VALID__REAL(x);
        IS_VALID_LREAL(1.5f64, f64::NAN) => |r, x| IS_VALID__LREAL(x);
        IS_VALID_BCD_BYTE(0x19u8, 0xa0) => |r, x| IS_VALID_BCD__BYTE(x);
        IS_VALID_BCD_WORD(0x1999u16, 0xa000) => |r, x| IS_VALID_BCD__WORD(x);
        IS_VALID_BCD_DWORD(0x1999_9999u32, 0xa) => |r, x| IS_VALID_BCD__DWORD(x);
        IS_VALID_BCD_LWORD(0x1999_9999_1999_9999u64, 0xa00) => |r, x| IS_VALID_BCD__LWORD(x);
        TIME((1_600_000_000_123_456_789i64), (1_600_000_000_123_456_789 + DAY / 3), (1_600_000_000_000_000_000)) => |r, x| { set_real(x); TIME() };
    }
    // texts to numbers
    group += 1;
    for (k, s) in ["1234", "-77", "16#ff", "2#101", "abc", "", "99999999999999999999", "0x7f", "8#17", "1e3", "-2.5"].into_iter().enumerate() {
        let mut add = |n: &str, c: Call| v.push(Rep { name: format!("{n}({s:?})"), group, prep: Box::new(move |ar| text(ar, s, "", false)), call: c, core: k == 0 && n == "STRING_TO_LREAL", pre: k < 5 && k != 1 && k != 3, text: true });
        add("STRING_TO_LINT", Box::new(|r| go!(r, STRING_TO_LINT(r.a8())) as u64));
        add("STRING_TO_DINT", Box::new(|r| go!(r, STRING_TO_DINT(r.a8())) as u64));
        add("STRING_TO_LREAL", Box::new(|r| go!(r, STRING_TO_LREAL(r.a8())).to_bits()));
        add("STRING_TO_REAL", Box::new(|r| go!(r, STRING_TO_REAL(r.a8())).to_bits() as u64));
    }
    // families of overloads
    group += 1;
    for (n, ty, div, f) in ffi::scales() {
        for (k, (a, b)) in [(1_000_000_000i64, 3i128), (i64::MAX, 2), (7, 0), (-9, 4)].into_iter().enumerate() {
            v.push(Rep { name: format!("{n}({a}, {b})"), group, prep: Box::new(|_| {}), call: Box::new(move |r| go!(r, { let _ = (); f(a, b) }) as u64), core: false, pre: k == 0 && (ty.name == "LINT" || ty.name == "ULINT") && !n.contains("LTIME") || div && k == 2 && ty.name == "DINT", text: false });
        }
    }
    group += 1;
    for (n, _, f) in ffi::fscales_real() {
        for (k, (a, b)) in [(1_000_000_000i64, 1.5f32), (i64::MAX, 1e30), (7, 0.0), (-9, 0.5)].into_iter().enumerate() {
            v.push(Rep { name: format!("{n}({a}, {b})"), group, prep: Box::new(|_| {}), call: Box::new(move |r| go!(r, f(a, b)) as u64), core: false, pre: k == 0 && n.contains("__TIME"), text: false });
        }
    }
    for (n, _, f) in ffi::fscales_lreal() {
        for (k, (a, b)) in [(1_000_000_000i64, 1.5f64), (i64::MAX, 1e30), (7, 0.0), (-9, 0.5)].into_iter().enumerate() {
            v.push(Rep { name: format!("{n}({a}, {b})"), group, prep: Box::new(|_| {}), call: Box::new(move |r| go!(r, f(a, b)) as u64), core: false, pre: k == 0 && n.contains("__TIME"), text: false });
        }
    }
    group += 1;
    for (n, ty, f) in ffi::concat_dates() {
        for (k, c) in [[2020i128, 2, 29, 0], [2021, 2, 29, 0], [1969, 12, 31, 0]].into_iter().enumerate() {
            v.push(Rep { name: format!("{n}({c:?})"), group, prep: Box::new(|_| {}), call: Box::new(move |r| go!(r, { let _ = (); f(c) }) as u64), core: k == 0 && ty.name == "INT", pre: k == 0 || k == 1 && ty.name == "INT", text: false });
        }
    }
    for (n, ty, f) in ffi::concat_tods() {
        for (k, c) in [[23i128, 59, 58, 99], [24, 0, 0, 0], [0, 0, 0, 1]].into_iter().enumerate() {
            v.push(Rep { name: format!("{n}({c:?})"), group, prep: Box::new(|_| {}), call: Box::new(move |r| go!(r, { let _ = (); f(c) }) as u64), core: false, pre: k == 0 || k == 1 && ty.name == "INT", text: false });
        }
    }
    group += 1;
    for (l, ins) in [(ffi::split_dates(), [1_599_955_200_000_000_000i64, -DAY, 0]), (ffi::split_tods(), [45_296_789_000_000, 1_000_000, 0]), (ffi::split_dts(), [1_600_000_000_123_456_789, -1, 0])] {
        for (n, ty, f) in l {
            for (k, i) in ins.into_iter().enumerate() {
                v.push(Rep { name: format!("{n}({i})"), group, prep: Box::new(|_| {}), call: Box::new(move |r| { r.on(); let x = f(i, &mut r.out); r.off(); x as u64 }), core: k == 0 && n == "SPLIT_DT__INT", pre: k == 0 && ty.bits <= 32, text: false });
            }
        }
    }
    group += 1;
    for &(n, _, b, f) in ffi::SHIFTS {
        for (k, (x, c)) in [(0x8123_4567_89ab_cdefu64, 3u32), (0x11, 200), (1, 0)].into_iter().enumerate() {
            let m = if b == 64 { u64::MAX } else { (1 << b) - 1 };
            v.push(Rep { name: format!("{n}(16#{:x}, {c})", x & m), group, prep: Box::new(|_| {}), call: Box::new(move |r| go!(r, f(x & m, c)) & m), core: false, pre: k == 0, text: false });
        }
    }
    group += 1;
    for &(n, b, signed, _, f) in ffi::ENDIAN {
        for (k, x) in [0x0123_4567_89ab_cdefu64, 0xff00].into_iter().enumerate() {
            let m = if b == 64 { u64::MAX } else { (1 << b) - 1 };
            let arg = if signed { ((x << (64 - b)) as i64 >> (64 - b)) as u64 } else { x & m };
            v.push(Rep { name: format!("{n}(16#{:x})", x & m), group, prep: Box::new(|_| {}), call: Box::new(move |r| go!(r, f(arg)) & m), core: false, pre: k == 0 && n.starts_with("TO_B"), text: false });
        }
    }
    group += 1;
    for &(n, f) in ffi::UN32.iter().chain(ffi::ENDIAN32) {
        for (k, x) in [0.75f32, -0.25, 1e10].into_iter().enumerate() {
            v.push(Rep { name: format!("{n}({x})"), group, prep: Box::new(|_| {}), call: Box::new(move |r| go!(r, f(x)).to_bits() as u64), core: false, pre: k == 0, text: false });
        }
    }
    for &(n, f) in ffi::UN64.iter().chain(ffi::ENDIAN64) {
        for (k, x) in [0.75f64, -0.25, 1e10].into_iter().enumerate() {
            v.push(Rep { name: format!("{n}({x})"), group, prep: Box::new(|_| {}), call: Box::new(move |r| go!(r, f(x)).to_bits()), core: false, pre: k == 0, text: false });
        }
    }
    group += 1;
    macro_rules! sels { ($($l:ident $b:expr),*) => { $( for &(ty, mx, mn, lim) in ffi::$l {
        for (k, (a, b, c)) in [(2, 9, 5), (7, 1, 3)].into_iter().enumerate() {
            let arr = [a as _, b as _, c as _];
            fn el<T: Copy>(r: &mut Arena, a: [T; 3]) -> *const T { let p = r.a.as_mut_ptr() as *mut T; unsafe { for i in 0..3 { *p.add(i) = a[i] } } p }
            v.push(Rep { name: format!("MAX__{ty}({a}, {b}, {c})"), group, prep: Box::new(|_| {}), call: Box::new(move |r| { let p = el(r, arr); go!(r, mx(3, p)) as u64 }), core: k == 0 && ty == "DINT", pre: k == 0, text: false });
            v.push(Rep { name: format!("MIN__{ty}({a}, {b}, {c})"), group, prep: Box::new(|_| {}), call: Box::new(move |r| { let p = el(r, arr); go!(r, mn(3, p)) as u64 }), core: false, pre: k == 0, text: false });
            v.push(Rep { name: format!("LIMIT__{ty}({}, {b}, {})", 2, 6), group, prep: Box::new(|_| {}), call: Box::new(move |r| go!(r, lim(2 as _, arr[1], 6 as _)) as u64), core: false, pre: k == 0, text: false });
        }
    } )* } }
    sels!(SEL_U8 8, SEL_U16 16, SEL_U32 32, SEL_U64 64, SEL_I8 8, SEL_I16 16, SEL_I32 32, SEL_I64 64, SEL_F32 32, SEL_F64 64);
    // function blocks: the last call of a short history
    for &(n, f) in ffi::FBS {
        group += 1;
        let i = fb::inst(n);
        let nops = i.ops.len();
        let hist: Vec<Vec<usize>> = (0..nops).flat_map(|x| [vec![x], vec![0, x], vec![0, 1, x], vec![0, 1, 0, x]]).collect();
        for (k, h) in hist.into_iter().enumerate() {
            let (ops, outs) = (i.ops.clone(), i.outs.clone());
            let ops2 = ops.clone();
            let h2 = h.clone();
            let write = |r: &mut Arena, op: &Vec<(usize, usize, i64)>| unsafe {
                let p = r.inst.as_mut_ptr() as *mut u8;
                for &(o, w, x) in op {
                    std::ptr::copy_nonoverlapping(x.to_le_bytes().as_ptr(), p.add(o), w);
                }
            };
            v.push(Rep {
                name: format!("{n} after {h:?}"),
                group,
                prep: Box::new(move |r| {
                    for (t, &o) in h.iter().enumerate() {
                        write(r, &ops[o]);
                        set_mono(1000 + 10 * t as i64);
                        if t + 1 < h.len() {
                            let p = r.inst.as_mut_ptr() as *mut u8;
                            let _ = tri(|| unsafe { f(p) });
                        }
                    }
                }),
                call: Box::new(move |r| {
                    let _ = (&ops2, &h2);
                    let p = r.inst.as_mut_ptr() as *mut u8;
                    go!(r, f(p));
                    let mut x = 0u64;
                    for &(o, w) in &outs {
                        for j in 0..w {
                            x = x.wrapping_mul(257).wrapping_add(unsafe { *p.add(o + j) } as u64);
                        }
                    }
                    x
                }),
                core: k == 3 && (n == "TON" || n == "CTUD"),
                pre: k == 1 || k == 2,
                text: false,
            });
        }
    }
    v
}

/// the representative calls, for other properties
pub fn calls() -> usize {
    reps().len()
}
/// hands over the name and a repeatable form of the i-th representative call
pub fn with_call(i: usize, f: &mut dyn FnMut(&str, &mut dyn FnMut()) -> R) -> R {
    let r = &reps()[i];
    let mut ar = Arena::new();
    (r.prep)(&mut ar);
    f(&r.name, &mut || {
        (r.call)(&mut ar);
    })
}

// ---------------------------------------------------------------- what each call gives in a fresh process
extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn sigaction(s: i32, a: *const [u64; 19], o: *mut [u64; 19]) -> i32;
}
fn baseline() -> &'static Vec<Out> {
    static V: OnceLock<Vec<Out>> = OnceLock::new();
    V.get_or_init(|| {
        // a fixed zone, so that TIME() does not depend on the machine
        std::env::set_var("TZ", "<+0530>-5:30");
        let rs = reps();
        let sz = std::mem::size_of::<Out>() * rs.len();
        let p = unsafe { mmap(std::ptr::null_mut(), sz, 3, 0x21, -1, 0) } as *mut Out;
        assert!(p as isize != -1);
        // one process per call; several at a time
        for (i, r) in rs.iter().enumerate() {
            unsafe {
                let c = fork();
                assert!(c >= 0);
                if c == 0 {
                    let mut ar = Arena::new();
                    let o = perform(r, &mut ar, false);
                    p.add(i).write(o);
                    _exit(0);
                }
                let mut st = 0;
                waitpid(c, &mut st, 0);
            }
        }
        (0..rs.len()).map(|i| unsafe { (*p.add(i)).clone() }).collect()
    })
}
fn check(cx: &mut Ctx, r: &Rep, o: &Out, w: &Out, how: &dyn Fn() -> String) -> R {
    cx.evals += 1;
    ensure!(w.state != 0, r.name.split('(').next().unwrap(), "{} kills a fresh process", r.name);
    if o == w {
        return Ok(());
    }
    bail!(r.name.split('(').next().unwrap(), "{} {} {}", r.name, how(), differs(o, w))
}

// ---------------------------------------------------------------- scheduler
const A: u32 = 0;
const B: u32 = 1;
const INF: i64 = i64::MAX;
static TURN: AtomicU32 = AtomicU32::new(A);
/// instructions until the thread hands over, and what it gets after each handover
static BUDGET: [AtomicI64; 2] = [AtomicI64::new(INF), AtomicI64::new(INF)];
static RELOAD: [AtomicI64; 2] = [AtomicI64::new(INF), AtomicI64::new(INF)];
static STEPS: [AtomicI64; 2] = [AtomicI64::new(0), AtomicI64::new(0)];
static LIMIT: AtomicI64 = AtomicI64::new(0);
static BUSY: AtomicBool = AtomicBool::new(false);
static AGAIN: AtomicBool = AtomicBool::new(false);
static STOP: AtomicBool = AtomicBool::new(false);
static BLOCKED: AtomicU64 = AtomicU64::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static BREP: AtomicU32 = AtomicU32::new(0);
static BCALLS: AtomicU64 = AtomicU64::new(0);
static BBAD: AtomicPtr<Out> = AtomicPtr::new(std::ptr::null_mut());
thread_local! { static ME: Cell<u32> = const { Cell::new(A) }; }

fn futex_wait(v: u32, ns: i64) {
    let ts = [0i64, ns];
    unsafe { syscall(202, &TURN as *const _ as usize, 128i64, v as i64, ts.as_ptr() as usize, 0i64, 0i64) };
}
fn give(to: u32) {
    TURN.store(to, SeqCst);
    unsafe { syscall(202, &TURN as *const _ as usize, 129i64, 1i64, 0i64, 0i64, 0i64) };
}
fn now_ns() -> i64 {
    let mut ts = Timespec::default();
    unsafe { syscall(228, 1i64, &mut ts as *mut _ as usize) };
    ts.sec * 1_000_000_000 + ts.nsec
}
/// waits for the turn; false when the other thread did not give it back in time (it may wait for something this
/// thread holds): then this thread takes it
fn await_turn(me: u32, patience: i64) -> bool {
    let mut t0 = 0;
    for spin in 0u64.. {
        if TURN.load(SeqCst) == me {
            return true;
        }
        if spin < 1 {
            std::hint::spin_loop();
            continue;
        }
        if t0 == 0 {
            t0 = now_ns();
        }
        futex_wait(1 - me, patience.min(5_000_000));
        if now_ns() - t0 > patience {
            return TURN.compare_exchange(1 - me, me, SeqCst, SeqCst).is_err();
        }
    }
    true
}
unsafe extern "C" fn on_trap(_: i32, _: *mut u8, uc: *mut u8) {
    let me = ME.with(|m| m.get());
    let k = me as usize;
    let efl = uc.add(40 + 17 * 8) as *mut u64;
    let n = STEPS[k].load(Relaxed) + 1;
    STEPS[k].store(n, Relaxed);
    if n > LIMIT.load(Relaxed) || me == B && STOP.load(SeqCst) {
        *efl &= !0x100;
        return;
    }
    let b = BUDGET[k].load(Relaxed) - 1;
    BUDGET[k].store(b, Relaxed);
    if b > 0 {
        return;
    }
    SWITCHES.fetch_add(1, Relaxed);
    give(1 - me);
    let late = BLOCKED.load(Relaxed);
    if !await_turn(me, if late < 20 { 50_000_000 } else { 2_000_000 }) {
        BLOCKED.fetch_add(1, Relaxed);
    }
    let r = RELOAD[k].load(Relaxed);
    BUDGET[k].store(r, Relaxed);
    if r == INF {
        *efl &= !0x100;
    }
}
/// both threads on one processor: a handover is then a plain context switch
fn pin() {
    unsafe {
        let mut m = [0u64; 16];
        let got = syscall(204, 0i64, 128i64, m.as_mut_ptr() as usize);
        if got <= 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| m[c / 64] >> (c % 64) & 1 == 1).collect();
        let c = cpus[std::process::id() as usize % cpus.len()];
        let mut m = [0u64; 16];
        m[c / 64] = 1 << (c % 64);
        syscall(203, 0i64, 128i64, m.as_ptr() as usize);
    }
}
fn init() {
    static ONCE: OnceLock<()> = OnceLock::new();
    ONCE.get_or_init(|| {
        baseline();
        pin();
        unsafe {
            // struct sigaction: handler, mask, flags, restorer
            let mut sa = [0u64; 19];
            sa[0] = on_trap as usize as u64;
            sa[17] = 4; // SA_SIGINFO
            assert_eq!(sigaction(5, &sa, std::ptr::null_mut()), 0);
        }
        TURN.store(A, SeqCst);
        std::thread::spawn(|| {
            ME.with(|m| m.set(B));
            let mut ar = Arena::new();
            loop {
                while !(TURN.load(SeqCst) == B) {
                    futex_wait(A, 50_000_000);
                }
                loop {
                    let i = BREP.load(SeqCst) as usize;
                    BUSY.store(true, SeqCst);
                    STEPS[1].store(0, Relaxed);
                    let o = perform(&reps()[i], &mut ar, BUDGET[1].load(Relaxed) != INF);
                    BCALLS.fetch_add(1, Relaxed);
                    if o != baseline()[i] && BBAD.load(SeqCst).is_null() {
                        BBAD.store(Box::into_raw(Box::new(o)), SeqCst);
                    }
                    BUSY.store(false, SeqCst);
                    if STOP.load(SeqCst) || !AGAIN.load(SeqCst) {
                        break;
                    }
                }
                give(A);
            }
        });
    });
}
#[derive(Clone, Copy, Debug)]
enum Sched {
    /// B runs whole after the k-th instruction of A
    At(i64),
    /// B runs whole after every instruction of A
    Every,
    /// A k instructions, B j instructions, A to its end, B to its end
    Nest(i64, i64),
    /// r instructions of A, s of B, alternating; B repeats its call until A is done
    Lock(i64, i64),
}
/// runs A and B under the schedule; returns the instructions A took while traced
fn pair(cx: &mut Ctx, ia: usize, ib: usize, s: Sched, limit: i64) -> Result<i64, Fail> {
    init();
    let (ra, rb) = (&reps()[ia], &reps()[ib]);
    let (a0, a1, b0, b1, again) = match s {
        Sched::At(k) => (k, INF, INF, INF, false),
        Sched::Every => (1, 1, INF, INF, false),
        Sched::Nest(k, j) => (k, INF, j, INF, false),
        Sched::Lock(r, s) => (r, r, s, s, true),
    };
    BUDGET[0].store(a0, SeqCst);
    RELOAD[0].store(a1, SeqCst);
    BUDGET[1].store(b0, SeqCst);
    RELOAD[1].store(b1, SeqCst);
    STEPS[0].store(0, SeqCst);
    STEPS[1].store(0, SeqCst);
    LIMIT.store(limit, SeqCst);
    AGAIN.store(again, SeqCst);
    STOP.store(false, SeqCst);
    BREP.store(ib as u32, SeqCst);
    cx.describe(|| format!("{} preempted by {}: {s:?}", ra.name, rb.name));
    thread_local! { static AR: Cell<*mut Arena> = const { Cell::new(std::ptr::null_mut()) }; }
    let ar = AR.with(|c| {
        if c.get().is_null() {
            c.set(Box::into_raw(Arena::new()));
        }
        unsafe { &mut *c.get() }
    });
    let o = perform(ra, ar, true);
    // let B finish what it has begun
    STOP.store(true, SeqCst);
    while BUSY.load(SeqCst) || TURN.load(SeqCst) == B {
        if BUSY.load(SeqCst) && TURN.load(SeqCst) == A {
            give(B);
        }
        await_turn(A, 100_000_000);
    }
    cx.transitions += SWITCHES.swap(0, SeqCst);
    cx.traces += 1;
    cx.count("whole calls of the preempting task", BCALLS.swap(0, SeqCst));
    cx.count("handovers where the preempting call had to wait", BLOCKED.swap(0, SeqCst));
    let how = || format!("preempted by {} ({s:?})", rb.name);
    let bad = BBAD.swap(std::ptr::null_mut(), SeqCst);
    check(cx, ra, &o, &baseline()[ia], &how)?;
    if !bad.is_null() {
        let o = unsafe { Box::from_raw(bad) };
        check(cx, rb, &o, &baseline()[ib], &|| format!("run while {} is preempted ({s:?})", ra.name))?;
    }
    Ok(STEPS[0].load(SeqCst))
}

fn c30(t: Tier) -> Vec<Space> {
    let deep = thorough(t);
    let rs = reps();
    let n = rs.len();
    let mut v = vec![];
    // ---- histories
    v.push(space("alone", n as u64, move |i, cx| {
        init();
        let r = &reps()[i as usize];
        cx.describe(|| r.name.clone());
        let mut ar = Arena::new();
        let o = perform(r, &mut ar, false);
        cx.states += 1;
        check(cx, r, &o, &baseline()[i as usize], &|| "in this process".into())
    }));
    v.push(space("every pair of calls", n as u64, move |i, cx| {
        init();
        let (rs, w, mut ar) = (reps(), baseline(), Arena::new());
        let i = i as usize;
        for j in 0..n {
            cx.describe(|| format!("{}; {}", rs[i].name, rs[j].name));
            // x y x: also what y does to a repetition of x
            for k in [i, j, i] {
                let o = perform(&rs[k], &mut ar, false);
                cx.transitions += 1;
                check(cx, &rs[k], &o, &w[k], &|| format!("in the history {}; {}; {}", rs[i].name, rs[j].name, rs[i].name))?;
            }
            cx.traces += 1;
        }
        cx.sample(|| format!("{0}; y; {0} for each of {n} calls y", rs[i].name));
        Ok(())
    }));
    // the same variables used again and again, with what longer texts left in them
    let kept: Vec<usize> = (0..n).filter(|i| rs[*i].text).collect();
    v.push(space("every pair of text calls on kept variables", kept.len() as u64, move |i, cx| {
        init();
        let (rs, w, mut ar) = (reps(), baseline(), Arena::new());
        let i = kept[i as usize];
        let mut with = |cx: &mut Ctx, h: &[usize]| {
            for &k in h {
                let o = perform_kept(&rs[k], &mut ar, &w[k]);
                cx.transitions += 1;
                check(cx, &rs[k], &o, &w[k], &|| format!("on kept variables, in the history {:?}", h.iter().map(|k| &rs[*k].name).collect::<Vec<_>>()))?;
            }
            cx.traces += 1;
            Ok(())
        };
        for &j in &kept {
            cx.describe(|| format!("{}; {} on kept variables", rs[i].name, rs[j].name));
            with(cx, &[i, j, i])?;
            if rs[j].group == rs[i].group {
                // and what a third call of the function makes of it
                for &k in &kept {
                    if rs[k].group == rs[i].group {
                        with(cx, &[i, j, k])?;
                    }
                }
                cx.beat();
            }
        }
        cx.sample(|| format!("{0}; y; {0} on the same variables for each of {1} calls y", rs[i].name, kept.len()));
        Ok(())
    }));
    // depth three over the preemption set, grouped: all triples whose first two calls are of one function
    let pre: Vec<usize> = (0..n).filter(|i| rs[*i].pre).collect();
    {
        let pre = pre.clone();
        v.push(space("triples", pre.len() as u64, move |i, cx| {
            init();
            let (rs, w, mut ar) = (reps(), baseline(), Arena::new());
            let a = pre[i as usize];
            for b in 0..n {
                if rs[b].group != rs[a].group && !(deep && rs[b].pre) {
                    continue;
                }
                for c in 0..n {
                    if rs[c].group != rs[a].group && !rs[c].core && !(deep && rs[c].pre) {
                        continue;
                    }
                    for k in [a, b, c] {
                        let o = perform(&rs[k], &mut ar, false);
                        cx.transitions += 1;
                        check(cx, &rs[k], &o, &w[k], &|| format!("in the history {}; {}; {}", rs[a].name, rs[b].name, rs[c].name))?;
                    }
                    cx.traces += 1;
                }
                cx.beat();
            }
            Ok(())
        }));
    }
    // long runs of one call, and of two in turn
    v.push(space("long runs", n as u64, move |i, cx| {
        init();
        let (rs, w, mut ar) = (reps(), baseline(), Arena::new());
        let i = i as usize;
        let j = (0..n).find(|j| *j != i && rs[*j].group == rs[i].group).unwrap_or(i);
        // past every 8-bit wrap, for one call per function past every 16-bit wrap; aborting calls are slow
        let m = if w[i].state == 2 { 600 } else if rs[i].pre { if deep { 1_000_000 } else { 70_000 } } else { 2_000 };
        for k in 0..m {
            let x = if k % 3 == 2 && w[j].state == 1 { j } else { i };
            let o = perform(&rs[x], &mut ar, false);
            cx.transitions += 1;
            check(cx, &rs[x], &o, &w[x], &|| format!("as call number {k} of a run of {} and {}", rs[i].name, rs[j].name))?;
            if k % 4096 == 0 {
                cx.beat();
            }
        }
        Ok(())
    }));
    // ---- preemption
    let core: Vec<usize> = (0..n).filter(|i| rs[*i].core).collect();
    let partners = move |a: usize| -> Vec<usize> {
        let rs = reps();
        let mut p: Vec<usize> = vec![a];
        p.extend((0..rs.len()).filter(|b| *b != a && rs[*b].group == rs[a].group && rs[*b].pre).take(3));
        p.extend(core.iter().filter(|b| **b != a));
        p
    };
    // quick: fewer partners in the unoptimised build, whose calls are several times as long
    let light = !deep && cfg!(debug_assertions);
    {
        let (pre, partners) = (pre.clone(), partners.clone());
        v.push(space("preempted after every instruction", pre.len() as u64, move |i, cx| {
            init();
            let a = pre[i as usize];
            let lim = if baseline()[a].state == 2 { 400 } else { 20_000 };
            let all = partners(a);
            let some = if light { (all.len() + 2) / 3 } else { all.len() };
            for &b in &all[..some] {
                let n = pair(cx, a, b, Sched::Every, lim)?;
                cx.states += n.min(lim) as u64;
                cx.max("instructions of one call", n as u64);
                cx.beat();
            }
            cx.sample(|| format!("{}: a whole call of another task after each of its instructions", reps()[a].name));
            Ok(())
        }));
    }
    {
        let (pre, partners) = (pre.clone(), partners.clone());
        v.push(space("lockstep", pre.len() as u64, move |i, cx| {
            init();
            let a = pre[i as usize];
            let lim = if baseline()[a].state == 2 { 400 } else { 20_000 };
            let all = partners(a);
            for &b in &all[..all.len().min(if deep { 7 } else if light { 2 } else { 4 })] {
                for &(r, s) in if deep { &[(1, 1), (1, 2), (2, 1), (3, 1), (1, 5), (7, 3)][..] } else { &[(1, 1), (2, 1), (1, 5)][..] } {
                    pair(cx, a, b, Sched::Lock(r, s), lim)?;
                    cx.beat();
                }
            }
            Ok(())
        }));
    }
    {
        v.push(space("one preemption at every point", pre.len() as u64, move |i, cx| {
            init();
            let a = pre[i as usize];
            let abort = baseline()[a].state == 2;
            let all = partners(a);
            for &b in &all[..all.len().min(if deep { 4 } else if light { 2 } else { 3 })] {
                let cap = if abort { 400 } else if deep { 20_000 } else { 3_000 };
                let mut k = 1;
                loop {
                    let n = pair(cx, a, b, Sched::At(k), cap)?;
                    cx.count("points", 1);
                    cx.beat();
                    if n < k {
                        break; // A ended before the k-th instruction
                    }
                    // every instruction at first, then a fixed stride; thorough: every instruction up to 300
                    k += if k < 60 || deep && k < 300 { 1 } else if deep { 1 + k / 48 } else { 1 + k / 8 };
                    if k > cap {
                        break;
                    }
                }
                // B cut into two as well
                for k in (1..=if deep { 20 } else { 12 }).map(|x| x * x / 2 + 1) {
                    for j in (1..=if deep { 10 } else { 6 }).map(|x| x * x) {
                        pair(cx, a, b, Sched::Nest(k, j), cap)?;
                        cx.beat();
                    }
                }
            }
            Ok(())
        }));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        level: "model_checking",
        rule: "states: preemption points (instructions of A after which B ran); transitions: calls of a history, and handovers between the two tasks; traces: complete histories and schedules compared with the fresh-process results",
        assumptions: &["tasks are threads of one process on one core's memory model: one instruction is one step", "the instructions of an aborting call after the first 400 (panic machinery) run unpreempted"],
        exhaustive: true,
        spaces: c30,
    }]
}
