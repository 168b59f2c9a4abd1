//! C08 LEFT/RIGHT/MID, C09 INSERT/DELETE/REPLACE, C10 CONCAT, C11 LEN/FIND, C12 comparisons, C13 buffers.
//!
//! Every call: each source sits (with its NUL) at the end of a page followed by an inaccessible one; the
//! destination is dirty and ends, after exactly result + NUL, at an inaccessible page, canary before it.
use crate::core::*;
use crate::ffi::*;
use crate::*;
use std::collections::HashMap;

pub trait Unit: Copy + Eq + std::fmt::Debug + Ord + 'static {
    const N: &'static str;
    fn enc(c: &[char]) -> Vec<Self>;
    fn zero() -> Self;
    fn dirt(k: usize) -> Self;
    fn show(u: &[Self]) -> String;
    fn fns() -> Fns<Self>;
}
type P<U> = *const U;
#[derive(Clone, Copy)]
pub struct Fns<U> {
    pub len: unsafe extern "C-unwind" fn(P<U>) -> i32,
    pub find: unsafe extern "C-unwind" fn(P<U>, P<U>) -> i32,
    pub left: unsafe extern "C-unwind" fn(P<U>, i32, *mut U) -> i32,
    pub right: unsafe extern "C-unwind" fn(P<U>, i32, *mut U) -> i32,
    pub mid: unsafe extern "C-unwind" fn(P<U>, i32, i32, *mut U) -> i32,
    pub ins: unsafe extern "C-unwind" fn(P<U>, P<U>, i32, *mut U) -> i32,
    pub del: unsafe extern "C-unwind" fn(P<U>, i32, i32, *mut U) -> i32,
    pub rep: unsafe extern "C-unwind" fn(P<U>, P<U>, i32, i32, *mut U) -> i32,
    pub concat: unsafe extern "C-unwind" fn(*mut U, i32, *const P<U>),
    pub concat_ext: unsafe extern "C-unwind" fn(*mut U, i32, *const P<U>) -> i32,
    pub cmp: [(&'static str, unsafe extern "C-unwind" fn(i32, *const P<U>) -> bool); 5],
    pub ne: unsafe extern "C-unwind" fn(P<U>, P<U>) -> bool,
}
impl Unit for u8 {
    const N: &'static str = "STRING";
    fn enc(c: &[char]) -> Vec<u8> {
        c.iter().collect::<String>().into_bytes()
    }
    fn zero() -> u8 {
        0
    }
    fn dirt(k: usize) -> u8 {
        b'A' + (k % 26) as u8
    }
    fn show(u: &[u8]) -> String {
        if u.len() > 60 {
            return format!("'{}...'({} bytes)", String::from_utf8_lossy(&u[..24]), u.len());
        }
        format!("'{}'", String::from_utf8_lossy(u))
    }
    fn fns() -> Fns<u8> {
        Fns { len: LEN__STRING, find: FIND__STRING, left: LEFT_EXT__STRING, right: RIGHT_EXT__STRING, mid: MID_EXT__STRING, ins: INSERT_EXT__STRING,
            del: DELETE_EXT__STRING, rep: REPLACE_EXT__STRING, concat: CONCAT__STRING, concat_ext: CONCAT_EXT__STRING,
            cmp: [("GT", GT__STRING), ("GE", GE__STRING), ("EQ", EQ__STRING), ("LE", LE__STRING), ("LT", LT__STRING)], ne: NE__STRING }
    }
}
impl Unit for u16 {
    const N: &'static str = "WSTRING";
    fn enc(c: &[char]) -> Vec<u16> {
        c.iter().collect::<String>().encode_utf16().collect()
    }
    fn zero() -> u16 {
        0
    }
    fn dirt(k: usize) -> u16 {
        0x4100 + (k % 200) as u16
    }
    fn show(u: &[u16]) -> String {
        if u.len() > 60 {
            return format!("\"{}...\"({} units)", String::from_utf16_lossy(&u[..24]), u.len());
        }
        format!("\"{}\"", String::from_utf16_lossy(u))
    }
    fn fns() -> Fns<u16> {
        Fns { len: LEN__WSTRING, find: FIND__WSTRING, left: LEFT_EXT__WSTRING, right: RIGHT_EXT__WSTRING, mid: MID_EXT__WSTRING, ins: INSERT_EXT__WSTRING,
            del: DELETE_EXT__WSTRING, rep: REPLACE_EXT__WSTRING, concat: CONCAT__WSTRING, concat_ext: CONCAT_EXT__WSTRING,
            cmp: [("GT", GT__WSTRING), ("GE", GE__WSTRING), ("EQ", EQ__WSTRING), ("LE", LE__WSTRING), ("LT", LT__WSTRING)], ne: NE__WSTRING }
    }
}

pub const CAP: usize = 2048; // standard string length of the ST layer, in code units
const PRE: usize = 32;

/// guarded memory for sources and a destination
pub struct Mem<U> {
    src: Vec<Guard>,
    pub dst: Guard,
    _u: std::marker::PhantomData<U>,
}
impl<U: Unit> Mem<U> {
    pub fn new() -> Mem<U> {
        Self::with(4, 4 * PAGE)
    }
    pub fn with(n: usize, bytes: usize) -> Mem<U> {
        Mem { src: (0..n).map(|_| Guard::new(bytes)).collect(), dst: Guard::new(8 * PAGE), _u: std::marker::PhantomData }
    }
    #[inline]
    pub fn source(&self, k: usize, s: &[U]) -> P<U> {
        let n = s.len() + 1;
        let p = self.src[k].tail(n * std::mem::size_of::<U>()) as *mut U;
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
            *p.add(s.len()) = U::zero();
        }
        p
    }
    #[inline]
    pub fn source_intact(&self, k: usize, s: &[U]) -> bool {
        let n = s.len() + 1;
        unsafe {
            let p = self.src[k].tail(n * std::mem::size_of::<U>()) as *const U;
            std::slice::from_raw_parts(p, s.len()) == s && *p.add(s.len()) == U::zero()
        }
    }
    /// dirty destination of exactly `units` code units ending at the guard page
    #[inline]
    pub fn dest(&self, units: usize) -> *mut U {
        let p = self.dst.tail(units * std::mem::size_of::<U>()) as *mut U;
        unsafe {
            for k in 0..PRE {
                *p.sub(PRE - k) = U::dirt(k + 7);
            }
            for k in 0..units {
                *p.add(k) = U::dirt(k);
            }
        }
        p
    }
    #[inline]
    pub fn canary(&self, p: *mut U) -> bool {
        unsafe { (0..PRE).all(|k| *p.sub(PRE - k) == U::dirt(k + 7)) }
    }
    /// Calls `f(sources, destination)`; `want` None: the call has to abort.
    #[inline]
    pub fn produce<T>(&self, srcs: &[&[U]], want: Option<&[U]>, f: impl FnOnce(&[P<U>], *mut U) -> T) -> Result<(), String> {
        let mut ps: [P<U>; 6] = [std::ptr::null(); 6];
        for (k, s) in srcs.iter().enumerate() {
            ps[k] = self.source(k, s);
        }
        let units = want.map(|w| w.len() + 1).unwrap_or(CAP + 1);
        let d = self.dest(units);
        let r = catch(|| f(&ps[..srcs.len()], d));
        for (k, s) in srcs.iter().enumerate() {
            if !self.source_intact(k, s) {
                return Err(format!("source #{k} was modified"));
            }
        }
        if !self.canary(d) {
            return Err("memory before the destination was modified".into());
        }
        match (r, want) {
            (Err(_), None) => Ok(()),
            (Err(p), Some(w)) => Err(format!("aborts ({p}), expected {}", U::show(w))),
            (Ok(_), None) => Err(format!("returns {}, expected an abort", U::show(&self.read(d, CAP + 1)))),
            (Ok(_), Some(w)) => {
                let got = unsafe { std::slice::from_raw_parts(d, w.len() + 1) };
                if &got[..w.len()] != w || got[w.len()] != U::zero() {
                    let z = got.iter().position(|x| *x == U::zero());
                    return Err(match z {
                        Some(z) => format!("gives {}, expected {}", U::show(&got[..z]), U::show(w)),
                        None => format!("gives {} without a terminator, expected {}", U::show(got), U::show(w)),
                    });
                }
                Ok(())
            }
        }
    }
    pub fn read(&self, d: *mut U, max: usize) -> Vec<U> {
        unsafe { (0..max).map(|k| *d.add(k)).take_while(|u| *u != U::zero()).collect() }
    }
}
thread_local! { static MEMS: std::cell::RefCell<HashMap<std::any::TypeId, usize>> = Default::default(); }
pub fn mem<U: Unit>() -> &'static Mem<U> {
    MEMS.with(|m| {
        let mut m = m.borrow_mut();
        let p = *m.entry(std::any::TypeId::of::<U>()).or_insert_with(|| Box::into_raw(Box::new(Mem::<U>::new())) as usize);
        unsafe { &*(p as *const Mem<U>) }
    })
}

/// memory for texts far longer than any the ST layer passes: lengths beyond 16 bits
pub fn mem_huge<U: Unit>() -> &'static Mem<U> {
    thread_local! { static HUGE: std::cell::RefCell<HashMap<std::any::TypeId, usize>> = Default::default(); }
    HUGE.with(|m| {
        let mut m = m.borrow_mut();
        let p = *m.entry(std::any::TypeId::of::<U>()).or_insert_with(|| {
            Box::into_raw(Box::new(Mem::<U> { src: (0..3).map(|_| Guard::new(HUGE_MAX * 4 + PAGE)).collect(), dst: Guard::new(HUGE_MAX * 8 + PAGE), _u: std::marker::PhantomData })) as usize
        });
        unsafe { &*(p as *const Mem<U>) }
    })
}
const HUGE_MAX: usize = 140_000;
pub fn huge(t: Tier) -> Vec<usize> {
    let mut v = vec![2049, 4095, 4096, 4097, 8192, 21846, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65600];
    if thorough(t) {
        v.extend([5000, 10_000, 10_923, 16_383, 16_384, 16_385, 21_845, 43_690, 43_691, 50_000, 65_533, 65_538, 65_791, 65_792, 99_999, 131_071, 131_072, 131_073, HUGE_MAX]);
    }
    v
}

// ---------------------------------------------------------------- string domains
pub const ALPHA: [char; 5] = ['a', 'é', '€', '😀', 'b'];
/// all strings over the first `k` characters of ALPHA up to length `l`, as an indexable domain
pub fn n_strings(k: u64, l: u32) -> u64 {
    (0..=l).map(|n| k.pow(n)).sum()
}
pub fn nth_string(mut i: u64, k: u64, alpha: &[char]) -> Vec<char> {
    let mut n = 0;
    let mut p = 1;
    while i >= p {
        i -= p;
        p *= k;
        n += 1;
    }
    (0..n).map(|_| alpha[dig(&mut i, k)]).collect()
}
/// argument values around a string of n characters
pub fn args(n: usize) -> Vec<i32> {
    let n = n as i64;
    let mut v: Vec<i64> = (-2..=n.min(8) + 2).collect();
    v.extend([n - 1, n, n + 1, n + 2, n / 2, -n, -n - 1, 127, 128, 255, 256, 257, 65535, 65536, 65537]);
    v.extend([1 << 16 | 1, i32::MAX as i64, i32::MAX as i64 - 1, i32::MIN as i64, i32::MIN as i64 + 1, i32::MIN as i64 + 2, -(1i64 << 16), -255, -256]);
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as i32).collect()
}
/// a long string of exactly n characters in one of four textures
pub fn texture(kind: usize, n: usize) -> Vec<char> {
    const MIX: [char; 7] = ['a', 'é', 'Z', '€', '0', '😀', '\u{7ff}'];
    (0..n)
        .map(|i| match kind {
            0 => (b'!' + (i % 89) as u8) as char,
            1 => MIX[i % 7],
            2 => char::from_u32(0x1F300 + (i % 200) as u32).unwrap(),
            _ => {
                if i + 1 == n || i == 0 {
                    '€'
                } else {
                    'x'
                }
            }
        })
        .collect()
}
pub fn lengths<U: Unit>(kind: usize, t: Tier) -> Vec<usize> {
    let maxn = (0..=CAP).rev().find(|n| U::enc(&texture(kind, *n)).len() <= CAP).unwrap();
    (0..=maxn)
        .filter(|n| thorough(t) || *n <= 40 || *n % 64 <= 1 || *n % 64 == 63 || *n % 100 <= 1 || *n % 10 == 0 && *n <= 300 || *n >= maxn - 3)
        .collect()
}

// ---------------------------------------------------------------- operations and their model
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Left(i32),
    Right(i32),
    Mid(i32, i32),
    Ins(i32),
    Del(i32, i32),
    Rep(i32, i32),
}
pub fn model(op: Op, a: &[char], b: &[char]) -> Option<Vec<char>> {
    let n = a.len() as i64;
    let cut = |cnt: i32, pos: i32| -> Option<(usize, usize)> {
        let (c, p) = (cnt as i64, pos as i64);
        if c < 0 || p < 1 || p > n || p - 1 + c > n {
            None
        } else {
            Some(((p - 1) as usize, (p - 1 + c) as usize))
        }
    };
    match op {
        Op::Left(c) => (c >= 0 && c as i64 <= n).then(|| a[..c as usize].to_vec()),
        Op::Right(c) => (c >= 0 && c as i64 <= n).then(|| a[(n - c as i64) as usize..].to_vec()),
        Op::Mid(c, p) => cut(c, p).map(|(x, y)| a[x..y].to_vec()),
        Op::Ins(p) => (p >= 0 && p as i64 <= n).then(|| [&a[..p as usize], b, &a[p as usize..]].concat()),
        Op::Del(c, p) => cut(c, p).map(|(x, y)| [&a[..x], &a[y..]].concat()),
        Op::Rep(c, p) => cut(c, p).map(|(x, y)| [&a[..x], b, &a[y..]].concat()),
    }
}
pub fn two(op: Op) -> bool {
    matches!(op, Op::Ins(_) | Op::Rep(..))
}
#[inline]
pub fn invoke<U: Unit>(f: &Fns<U>, op: Op, s: &[P<U>], d: *mut U) -> i32 {
    unsafe {
        match op {
            Op::Left(n) => (f.left)(s[0], n, d),
            Op::Right(n) => (f.right)(s[0], n, d),
            Op::Mid(n, p) => (f.mid)(s[0], n, p, d),
            Op::Ins(p) => (f.ins)(s[0], s[1], p, d),
            Op::Del(n, p) => (f.del)(s[0], n, p, d),
            Op::Rep(n, p) => (f.rep)(s[0], s[1], n, p, d),
        }
    }
}
fn opname(op: Op) -> &'static str {
    match op {
        Op::Left(_) => "LEFT",
        Op::Right(_) => "RIGHT",
        Op::Mid(..) => "MID",
        Op::Ins(_) => "INSERT",
        Op::Del(..) => "DELETE",
        Op::Rep(..) => "REPLACE",
    }
}
pub fn check_op<U: Unit>(cx: &mut Ctx, f: &Fns<U>, m: &Mem<U>, op: Op, a: &[char], b: &[char], ea: &[U], eb: &[U]) -> R {
    let want = model(op, a, b);
    let wu = want.as_ref().map(|w| U::enc(w));
    cx.case(wu.is_none() || a.len() > 1);
    cx.describe(|| format!("{:?} on {} {} {}", op, U::N, U::show(ea), U::show(eb)));
    let r = if two(op) {
        m.produce(&[ea, eb], wu.as_deref(), |s, d| invoke(f, op, s, d))
    } else {
        m.produce(&[ea], wu.as_deref(), |s, d| invoke(f, op, s, d))
    };
    r.map_err(|e| {
        fail(
            format!("{}__{}", opname(op), U::N),
            format!("{:?} on {}{}: {e}", op, U::show(ea), if two(op) { format!(" with {}", U::show(eb)) } else { String::new() }),
        )
    })
}

fn edit_spaces<U: Unit>(which: &'static [&'static str], t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let n1 = if thorough(t) { 7 } else { 5 };
    let one: Vec<&'static str> = which.iter().copied().filter(|w| *w != "INSERT" && *w != "REPLACE").collect();
    let twos: Vec<&'static str> = which.iter().copied().filter(|w| *w == "INSERT" || *w == "REPLACE").collect();
    let ops_for = |w: &str, n: usize, wide: bool| -> Vec<Op> {
        let a = if wide { args(n) } else { (-1..=n as i32 + 1).collect() };
        let mut o = vec![];
        for &x in &a {
            match w {
                "LEFT" => o.push(Op::Left(x)),
                "RIGHT" => o.push(Op::Right(x)),
                "INSERT" => o.push(Op::Ins(x)),
                _ => {
                    for &y in &a {
                        o.push(match w {
                            "MID" => Op::Mid(x, y),
                            "DELETE" => Op::Del(x, y),
                            _ => Op::Rep(x, y),
                        })
                    }
                }
            }
        }
        o
    };
    for w in one {
        // all strings over {1,2,3,4-byte characters, b} up to length n1, all arguments
        let two_args = w == "MID" || w == "DELETE";
        let l = if two_args { n1 } else { n1 + 1 };
        v.push(space(format!("{w} {} all strings to length {l}", U::N), n_strings(5, l), move |i, cx| {
            let a = nth_string(i, 5, &ALPHA);
            let ea = U::enc(&a);
            let (f, m) = (U::fns(), mem::<U>());
            for op in ops_for(w, a.len(), i < 4000 && !two_args || i < 200) {
                check_op(cx, &f, m, op, &a, &[], &ea, &[])?;
            }
            cx.sample(|| format!("{w} on {}", U::show(&ea)));
            Ok(())
        }));
    }
    for w in twos {
        let (la, lb) = if thorough(t) { (5, 3) } else { (4, 2) };
        let (na, nb) = (n_strings(4, la), n_strings(4, lb));
        v.push(space(format!("{w} {} all pairs to length {la}/{lb}", U::N), na, move |i, cx| {
            let a = nth_string(i, 4, &ALPHA);
            let ea = U::enc(&a);
            let (f, m) = (U::fns(), mem::<U>());
            for j in 0..nb {
                let b = nth_string(j, 4, &ALPHA);
                let eb = U::enc(&b);
                for op in ops_for(w, a.len(), j < 2) {
                    check_op(cx, &f, m, op, &a, &b, &ea, &eb)?;
                }
            }
            cx.sample(|| format!("{w} on {}", U::show(&ea)));
            Ok(())
        }));
    }
    // long strings
    for kind in 0..4 {
        let ls = lengths::<U>(kind, t);
        v.push(space(format!("{} {} lengths to {CAP} units, texture {kind}", which.join("/"), U::N), ls.len() as u64, move |i, cx| {
            let n = ls[i as usize];
            let a = texture(kind, n);
            let ea = U::enc(&a);
            let (f, m) = (U::fns(), mem::<U>());
            let room = CAP - ea.len();
            let b: Vec<char> = ['€', '1'].into_iter().take(if room >= 4 { 2 } else { 0 }).collect();
            let eb = U::enc(&b);
            let k = n as i32;
            let mut cnt = vec![0, 1, 2, k / 2, k - 1, k, k + 1, 80, 81, 127, 128, 255, 256, 1024];
            cnt.sort();
            cnt.dedup();
            for w in which {
                for &x in &cnt {
                    match *w {
                        "LEFT" => check_op(cx, &f, m, Op::Left(x), &a, &b, &ea, &eb)?,
                        "RIGHT" => check_op(cx, &f, m, Op::Right(x), &a, &b, &ea, &eb)?,
                        "INSERT" => check_op(cx, &f, m, Op::Ins(x), &a, &b, &ea, &eb)?,
                        _ => {
                            for &y in &cnt {
                                let op = match *w {
                                    "MID" => Op::Mid(x, y),
                                    "DELETE" => Op::Del(x, y),
                                    _ => Op::Rep(x, y),
                                };
                                check_op(cx, &f, m, op, &a, &b, &ea, &eb)?;
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    // short texts edited with long ones
    for kind in 0..4 {
        let ls = lengths::<U>(kind, Tier::Quick);
        if !which.contains(&"INSERT") {
            continue;
        }
        v.push(space(format!("INSERT/REPLACE {} of texts to {CAP} units, texture {kind}", U::N), ls.len() as u64, move |i, cx| {
            let b = texture(kind, ls[i as usize]);
            let eb = U::enc(&b);
            let (f, m) = (U::fns(), mem::<U>());
            let a: Vec<char> = ['é', 'x', '€'].into_iter().take(if CAP - eb.len() >= 6 { 3 } else { 0 }).collect();
            let ea = U::enc(&a);
            for op in [Op::Ins(0), Op::Ins(1), Op::Ins(3), Op::Ins(4), Op::Rep(1, 1), Op::Rep(1, 2), Op::Rep(2, 2), Op::Rep(0, 3), Op::Rep(3, 1), Op::Rep(4, 1)] {
                check_op(cx, &f, m, op, &a, &b, &ea, &eb)?;
            }
            Ok(())
        }));
    }
    // texts beyond 16-bit lengths
    for kind in 0..4 {
        let ls = huge(t);
        v.push(space(format!("{} {} very long texts, texture {kind}", which.join("/"), U::N), ls.len() as u64, move |i, cx| {
            let n = ls[i as usize];
            let a = texture(kind, n);
            let ea = U::enc(&a);
            let (f, m) = (U::fns(), mem_huge::<U>());
            let k = n as i32;
            let mut cnt = vec![1, k / 2, k - 1, k, k + 1, 2048, 4096, 32768, 65535, 65536, 65537, k - 65536];
            cnt.sort();
            cnt.dedup();
            for b in [vec!['€', '1'], a.clone()] {
                let eb = U::enc(&b);
                let long = b.len() > 2;
                for w in which {
                    for &x in &cnt {
                        cx.beat();
                        match *w {
                            "LEFT" | "RIGHT" | "MID" | "DELETE" if long => {}
                            "LEFT" => check_op(cx, &f, m, Op::Left(x), &a, &b, &ea, &eb)?,
                            "RIGHT" => check_op(cx, &f, m, Op::Right(x), &a, &b, &ea, &eb)?,
                            "INSERT" => check_op(cx, &f, m, Op::Ins(x), &a, &b, &ea, &eb)?,
                            _ => {
                                for y in [1, k - x + 1, k - x + 2] {
                                    let op = match *w {
                                        "MID" => Op::Mid(x, y),
                                        "DELETE" => Op::Del(x, y),
                                        _ => Op::Rep(x, y),
                                    };
                                    check_op(cx, &f, m, op, &a, &b, &ea, &eb)?;
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    // one variable as both operands
    if which.contains(&"INSERT") {
        let l = if thorough(t) { 5 } else { 4 };
        v.push(space(format!("INSERT/REPLACE {} of a text with itself to length {l}", U::N), n_strings(4, l), move |i, cx| {
            let a = nth_string(i, 4, &ALPHA);
            let ea = U::enc(&a);
            let (f, m) = (U::fns(), mem::<U>());
            for op in ops_for("INSERT", a.len(), false).into_iter().chain(ops_for("REPLACE", a.len(), false)) {
                let want = model(op, &a, &a).map(|w| U::enc(&w));
                cx.case(want.is_none() || a.len() > 1);
                cx.describe(|| format!("{op:?} on {} {} with itself", U::N, U::show(&ea)));
                m.produce(&[&ea], want.as_deref(), |s, d| invoke(&f, op, &[s[0], s[0]], d)).map_err(|e| fail(format!("{}__{}", opname(op), U::N), format!("{op:?} on {} with itself: {e}", U::show(&ea))))?;
            }
            Ok(())
        }));
    }
    // every Unicode character
    v.push(space(format!("{} {} every character", which.join("/"), U::N), 0x110000 / 256, move |i, cx| {
        let (f, m) = (U::fns(), mem::<U>());
        for cp in i as u32 * 256..(i as u32 + 1) * 256 {
            let Some(c) = char::from_u32(cp) else { continue };
            if cp == 0 {
                continue;
            }
            let a = ['x', c, 'y', c];
            let b = [c];
            let (ea, eb) = (U::enc(&a), U::enc(&b));
            for w in which {
                let ops: &[Op] = match *w {
                    "LEFT" => &[Op::Left(2), Op::Left(1)],
                    "RIGHT" => &[Op::Right(2), Op::Right(1)],
                    "MID" => &[Op::Mid(1, 2), Op::Mid(2, 3)],
                    "INSERT" => &[Op::Ins(2), Op::Ins(4)],
                    "DELETE" => &[Op::Del(1, 2), Op::Del(2, 1)],
                    _ => &[Op::Rep(1, 2), Op::Rep(1, 1)],
                };
                for &op in ops {
                    check_op(cx, &f, m, op, &a, &b, &ea, &eb)?;
                }
            }
        }
        Ok(())
    }));
    v
}
fn c08(t: Tier) -> Vec<Space> {
    let mut v = edit_spaces::<u8>(&["LEFT", "RIGHT", "MID"], t);
    v.extend(edit_spaces::<u16>(&["LEFT", "RIGHT", "MID"], t));
    v
}
fn c09(t: Tier) -> Vec<Space> {
    let mut v = edit_spaces::<u8>(&["INSERT", "DELETE", "REPLACE"], t);
    v.extend(edit_spaces::<u16>(&["INSERT", "DELETE", "REPLACE"], t));
    v
}

// ---------------------------------------------------------------- CONCAT
fn check_concat<U: Unit>(cx: &mut Ctx, parts: &[Vec<char>], same: bool) -> R {
    check_concat_in::<U>(cx, mem::<U>(), parts, same)
}
fn check_concat_in<U: Unit>(cx: &mut Ctx, m: &Mem<U>, parts: &[Vec<char>], same: bool) -> R {
    let f = U::fns();
    let enc: Vec<Vec<U>> = parts.iter().map(|p| U::enc(p)).collect();
    let want: Vec<U> = enc.concat();
    cx.case(parts.len() > 1 && parts.iter().any(|p| !p.is_empty()));
    // sources: one per guard while they last, further ones share heap copies
    let heap: Vec<Vec<U>> = enc.iter().map(|e| e.iter().copied().chain([U::zero()]).collect()).collect();
    for ext in [false, true] {
        let mut argv: Vec<P<U>> = vec![];
        for (k, e) in enc.iter().enumerate() {
            argv.push(if same && k > 0 { argv[0] } else if k < m.src.len() { m.source(k, e) } else { heap[k].as_ptr() });
        }
        let want: Vec<U> = if same { (0..parts.len()).flat_map(|_| enc[0].clone()).collect() } else { want.clone() };
        let g = Guard::put16; // keep the type used
        let _ = g;
        let p = m.dest(want.len() + 1);
        let key = format!("CONCAT__{}", U::N);
        let show = || enc.iter().map(|e| U::show(e)).collect::<Vec<_>>().join(", ").chars().take(2000).collect::<String>();
        cx.describe(|| format!("CONCAT({})", show()));
        let r = catch(|| unsafe {
            if ext {
                (f.concat_ext)(p, argv.len() as i32, argv.as_ptr())
            } else {
                (f.concat)(p, argv.len() as i32, argv.as_ptr());
                0
            }
        });
        let got = unsafe { std::slice::from_raw_parts(p, want.len() + 1) };
        match r {
            Err(e) => bail!(key, "CONCAT({}) aborts: {e}", show()),
            Ok(r) => ensure!(r == 0, key, "CONCAT({}) reports failure {r}", show()),
        }
        ensure!(got[..want.len()] == want[..] && got[want.len()] == U::zero(), key, "CONCAT({}){} gives {}, expected {}", show(), if same { " (the same variable)" } else { "" }, U::show(got), U::show(&want));
        ensure!(m.canary(p), key, "CONCAT({}) wrote before the destination", show());
        for (k, e) in enc.iter().enumerate().take(if same { 1 } else { m.src.len() }) {
            ensure!(m.source_intact(k, e), key, "CONCAT({}) modified argument {k}", show());
        }
        ensure!(heap.iter().zip(&enc).all(|(h, e)| h[..e.len()] == e[..]), key, "CONCAT({}) modified an argument", show());
    }
    Ok(())
}
fn concat_spaces<U: Unit>(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let parts: Vec<Vec<char>> = (0..n_strings(4, 2)).map(|i| nth_string(i, 4, &ALPHA)).collect(); // 21
    let k = parts.len() as u64;
    let maxn = if thorough(t) { 5 } else { 4 };
    for n in 1..=maxn {
        let parts = parts.clone();
        v.push(space(format!("CONCAT {} all lists of {n} strings to length 2", U::N), k.pow(n), move |mut i, cx| {
            let l: Vec<Vec<char>> = (0..n).map(|_| parts[dig(&mut i, k)].clone()).collect();
            cx.sample(|| format!("CONCAT{l:?}"));
            check_concat::<U>(cx, &l, false)?;
            if i % 16 == 0 {
                check_concat::<U>(cx, &l, true)?;
            }
            Ok(())
        }));
    }
    // 1..64 arguments, lengths of each from a pattern, and long ones to the capacity
    v.push(space(format!("CONCAT {} 1..64 arguments", U::N), 64 * 27, move |mut i, cx| {
        let n = dig(&mut i, 64) + 1;
        let (a, b, c) = (dig(&mut i, 3), dig(&mut i, 3), dig(&mut i, 3));
        let l: Vec<Vec<char>> = (0..n).map(|k| nth_string([a, b, c][k % 3] as u64 * 7 + (k as u64 % 3) * (([a, b, c][k % 3] > 0) as u64), 4, &ALPHA)).collect();
        check_concat::<U>(cx, &l, false)
    }));
    // many arguments: past every 8-bit count, one long run of 16-bit counts
    let ns: Vec<usize> = (65..=if thorough(t) { 300 } else { 130 }).chain([255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 4096, 32768, 65535, 65536, 65537, 66_000]).collect();
    v.push(space(format!("CONCAT {} many arguments", U::N), ns.len() as u64, move |i, cx| {
        let n = ns[i as usize];
        let l: Vec<Vec<char>> = (0..n).map(|k| if n > 400 && k % 7 != 3 { vec![] } else { vec![ALPHA[k % 5]] }).collect();
        check_concat_in::<U>(cx, mem_huge::<U>(), &l, false)
    }));
    for kind in 0..4 {
        let ls = huge(t);
        v.push(space(format!("CONCAT {} very long texts, texture {kind}", U::N), ls.len() as u64, move |i, cx| {
            let n = ls[i as usize];
            let a = texture(kind, n);
            let m = mem_huge::<U>();
            for cut in [0, 1, n / 2, n - 1, n] {
                check_concat_in::<U>(cx, m, &[a[..cut].to_vec(), a[cut..].to_vec()], false)?;
                cx.beat();
            }
            check_concat_in::<U>(cx, m, &[a.clone(), vec!['é'], a.clone()], false)
        }));
    }
    for kind in 0..4 {
        let ls = lengths::<U>(kind, t);
        v.push(space(format!("CONCAT {} long texture {kind}", U::N), ls.len() as u64, move |i, cx| {
            let n = ls[i as usize];
            let a = texture(kind, n);
            for cut in [0, 1, n / 2, n.saturating_sub(1), n] {
                let cut = cut.min(n);
                check_concat::<U>(cx, &[a[..cut].to_vec(), a[cut..].to_vec()], false)?;
                check_concat::<U>(cx, &[a[..cut].to_vec(), vec![], a[cut..].to_vec()], false)?;
            }
            Ok(())
        }));
    }
    v.push(space(format!("CONCAT {} every character", U::N), 0x110000 / 256, move |i, cx| {
        for cp in i as u32 * 256..(i as u32 + 1) * 256 {
            let Some(c) = char::from_u32(cp) else { continue };
            if cp != 0 {
                check_concat::<U>(cx, &[vec!['x', c], vec![c, 'y']], false)?;
            }
        }
        Ok(())
    }));
    v
}
/// no argument list or no destination
fn null_space<U: Unit>() -> Space {
    space(format!("CONCAT {} null pointers", U::N), 3 * 5 * 2, move |mut i, cx| {
        let f = U::fns();
        let text: Vec<U> = "ab\0".bytes().map(|b| U::enc(&[b as char]).first().copied().unwrap_or(U::zero())).collect();
        let ptrs = [text.as_ptr(); 4];
        let mut out = [U::zero(); 16];
        let which = dig(&mut i, 3);
        let argc = dig(&mut i, 5) as i32;
        let ext = i == 1;
        let d = if which != 0 { std::ptr::null_mut() } else { out.as_mut_ptr() };
        let v = if which != 1 { std::ptr::null() } else { ptrs.as_ptr() };
        cx.case(true);
        let what = format!("CONCAT{} of {argc} {}s with {}", if ext { "_EXT" } else { "" }, U::N, ["no argument list", "no destination", "neither argument list nor destination"][which]);
        cx.describe(|| what.clone());
        cx.sample(|| what.clone());
        let r = tri(|| unsafe {
            if ext {
                (f.concat_ext)(d, argc, v);
            } else {
                (f.concat)(d, argc, v)
            }
        });
        ensure!(r.is_none(), format!("CONCAT__{}", U::N), "{what} does not abort");
        ensure!(out.iter().all(|x| *x == U::zero()), format!("CONCAT__{}", U::N), "{what} writes to the destination");
        Ok(())
    })
}
fn c10(t: Tier) -> Vec<Space> {
    let mut v = concat_spaces::<u8>(t);
    v.extend(concat_spaces::<u16>(t));
    v.push(null_space::<u8>());
    v.push(null_space::<u16>());
    v
}

// ---------------------------------------------------------------- LEN / FIND
pub fn find_model(a: &[char], b: &[char]) -> i32 {
    if a.is_empty() || b.is_empty() || b.len() > a.len() {
        return 0;
    }
    for p in 0..=a.len() - b.len() {
        if a[p..p + b.len()] == *b {
            return p as i32 + 1;
        }
    }
    0
}
fn check_find<U: Unit>(cx: &mut Ctx, f: &Fns<U>, m: &Mem<U>, a: &[char], b: &[char]) -> R {
    let (ea, eb) = (U::enc(a), U::enc(b));
    let (pa, pb) = (m.source(0, &ea), m.source(1, &eb));
    let w = find_model(a, b);
    cx.case(!b.is_empty() && a.len() > 1);
    cx.describe(|| format!("FIND({}, {})", U::show(&ea), U::show(&eb)));
    match catch(|| unsafe { (f.find)(pa, pb) }) {
        Ok(g) => ensure!(g == w, format!("FIND__{}", U::N), "FIND({}, {}) = {g}, expected {w}", U::show(&ea), U::show(&eb)),
        Err(e) => bail!(format!("FIND__{}", U::N), "FIND({}, {}) aborts: {e}", U::show(&ea), U::show(&eb)),
    }
    ensure!(m.source_intact(0, &ea) && m.source_intact(1, &eb), format!("FIND__{}", U::N), "FIND({}, {}) modified a source", U::show(&ea), U::show(&eb));
    Ok(())
}
fn check_len<U: Unit>(cx: &mut Ctx, f: &Fns<U>, m: &Mem<U>, a: &[char]) -> R {
    let ea = U::enc(a);
    let pa = m.source(0, &ea);
    cx.case(!a.is_empty());
    cx.describe(|| format!("LEN({})", U::show(&ea)));
    let g = catch(|| unsafe { (f.len)(pa) });
    ensure!(g == Ok(a.len() as i32), format!("LEN__{}", U::N), "LEN({}) = {g:?}, expected {}", U::show(&ea), a.len());
    Ok(())
}
fn find_spaces<U: Unit>(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let l = if thorough(t) { 8 } else { 6 };
    v.push(space(format!("LEN {} all strings to length {l}", U::N), n_strings(5, l), move |i, cx| {
        let a = nth_string(i, 5, &ALPHA);
        cx.sample(|| format!("LEN({a:?})"));
        check_len::<U>(cx, &U::fns(), mem::<U>(), &a)
    }));
    // FIND: binary alphabets give every overlap structure; three alphabets (ascii, 2 bytes/3 bytes, surrogates)
    for (nm, al) in [("ascii", ['a', 'b', 'c']), ("2/3 byte", ['é', '€', 'è']), ("mixed", ['a', '😀', '€']), ("same lead unit", ['😀', '😁', '\u{10000}'])] {
        let (la, lb) = if thorough(t) { (8, 4) } else { (7, 3) };
        let nb = n_strings(3, lb);
        v.push(space(format!("FIND {} {nm} all pairs to length {la}/{lb}", U::N), n_strings(3, la), move |i, cx| {
            let a = nth_string(i, 3, &al);
            let (f, m) = (U::fns(), mem::<U>());
            for j in 0..nb {
                check_find::<U>(cx, &f, m, &a, &nth_string(j, 3, &al))?;
            }
            cx.sample(|| format!("FIND({a:?}, ..)"));
            Ok(())
        }));
        // long needles over two letters
        let (la, lb) = if thorough(t) { (11, 8) } else { (9, 6) };
        let nb = n_strings(2, lb);
        v.push(space(format!("FIND {} {nm} overlaps to length {la}/{lb}", U::N), n_strings(2, la), move |i, cx| {
            let a = nth_string(i, 2, &al);
            let (f, m) = (U::fns(), mem::<U>());
            for j in 0..nb {
                check_find::<U>(cx, &f, m, &a, &nth_string(j, 2, &al))?;
            }
            Ok(())
        }));
    }
    for kind in 0..4 {
        let ls = lengths::<U>(kind, t);
        v.push(space(format!("LEN/FIND {} long texture {kind}", U::N), ls.len() as u64, move |i, cx| {
            let n = ls[i as usize];
            let a = texture(kind, n);
            let (f, m) = (U::fns(), mem::<U>());
            check_len::<U>(cx, &f, m, &a)?;
            for p in [0, 1, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1)] {
                for w in [1, 2, 30, n] {
                    let p = p.min(n);
                    let e = (p + w).min(n);
                    let mut b = a[p..e].to_vec();
                    check_find::<U>(cx, &f, m, &a, &b)?;
                    if U::enc(&b).len() < CAP - 4 {
                        b.push('ÿ');
                        check_find::<U>(cx, &f, m, &a, &b)?;
                    }
                }
            }
            Ok(())
        }));
    }
    for kind in 0..4 {
        let ls = huge(t);
        v.push(space(format!("LEN/FIND {} very long texts, texture {kind}", U::N), ls.len() as u64, move |i, cx| {
            let n = ls[i as usize];
            let mut a = texture(kind, n);
            let (f, m) = (U::fns(), mem_huge::<U>());
            check_len::<U>(cx, &f, m, &a)?;
            // one place only it occurs at, near the start, the end and the 16-bit limits
            for p in [0, 1, 2047, 2048, n / 2, 32766, 32767, 32768, 65533, 65534, 65535, 65536, n - 2, n - 1] {
                if p < n {
                    let was = std::mem::replace(&mut a[p], '§');
                    check_find::<U>(cx, &f, m, &a, &['§'])?;
                    check_find::<U>(cx, &f, m, &a, &a[p.saturating_sub(1)..=p])?;
                    a[p] = was;
                    cx.beat();
                }
            }
            check_find::<U>(cx, &f, m, &a, &a)?;
            check_find::<U>(cx, &f, m, &a, &a[1..])?;
            check_find::<U>(cx, &f, m, &a[1..], &a)
        }));
    }
    v.push(space(format!("FIND {} of a text in itself", U::N), n_strings(4, 4), move |i, cx| {
        let a = nth_string(i, 4, &ALPHA);
        let ea = U::enc(&a);
        let p = mem::<U>().source(0, &ea);
        cx.case(a.len() > 1);
        let r = catch(|| unsafe { (U::fns().find)(p, p) });
        ensure!(r == Ok(a.len().min(1) as i32), format!("FIND__{}", U::N), "FIND({0}, {0}) on one variable = {r:?}", U::show(&ea));
        Ok(())
    }));
    v.push(space(format!("LEN/FIND {} every character", U::N), 0x110000 / 256, move |i, cx| {
        let (f, m) = (U::fns(), mem::<U>());
        for cp in i as u32 * 256..(i as u32 + 1) * 256 {
            let Some(c) = char::from_u32(cp) else { continue };
            if cp != 0 {
                let x = if c == 'x' { 'z' } else { 'x' };
                check_len::<U>(cx, &f, m, &[x, c, c])?;
                check_find::<U>(cx, &f, m, &[x, c, c], &[c])?;
                check_find::<U>(cx, &f, m, &[c, x], &[x])?;
            }
        }
        Ok(())
    }));
    v
}
fn c11(t: Tier) -> Vec<Space> {
    let mut v = find_spaces::<u8>(t);
    v.extend(find_spaces::<u16>(t));
    v
}

// ---------------------------------------------------------------- comparisons
fn check_cmp<U: Unit>(cx: &mut Ctx, f: &Fns<U>, m: &Mem<U>, l: &[&[U]]) -> R {
    let heap: Vec<Vec<U>> = l.iter().skip(m.src.len()).map(|s| s.iter().copied().chain([U::zero()]).collect()).collect();
    let argv: Vec<P<U>> = l.iter().enumerate().map(|(k, s)| if k < m.src.len() { m.source(k, s) } else { heap[k - m.src.len()].as_ptr() }).collect();
    check_cmp_at(cx, f, l, &argv)?;
    for (k, s) in l.iter().enumerate().take(m.src.len()) {
        ensure!(m.source_intact(k, s), format!("compare__{}", U::N), "comparing {} modified argument {k}", l.iter().map(|e| U::show(e)).collect::<Vec<_>>().join(", "));
    }
    Ok(())
}
fn check_cmp_at<U: Unit>(cx: &mut Ctx, f: &Fns<U>, l: &[&[U]], argv: &[P<U>]) -> R {
    cx.case(l.windows(2).any(|w| !w[0].is_empty() && !w[1].is_empty()));
    let show = || l.iter().map(|e| U::show(e)).collect::<Vec<_>>().join(", ").chars().take(2000).collect::<String>();
    cx.describe(|| format!("comparing {}", show()));
    let all = |p: fn(std::cmp::Ordering) -> bool| {
        l.windows(2).all(|w| {
            // lexicographic, unit by unit, written out
            let mut o = w[0].len().cmp(&w[1].len());
            for k in 0..w[0].len().min(w[1].len()) {
                if w[0][k] != w[1][k] {
                    o = w[0][k].cmp(&w[1][k]);
                    break;
                }
            }
            p(o)
        })
    };
    let want = [all(|o| o.is_gt()), all(|o| o.is_ge()), all(|o| o.is_eq()), all(|o| o.is_le()), all(|o| o.is_lt())];
    for (k, (n, g)) in f.cmp.iter().enumerate() {
        match catch(|| unsafe { g(l.len() as i32, argv.as_ptr()) }) {
            Ok(r) => ensure!(r == want[k], format!("{n}__{}", U::N), "{n}({}) = {r}, expected {}", show(), want[k]),
            Err(e) => bail!(format!("{n}__{}", U::N), "{n}({}) aborts: {e}", show()),
        }
    }
    if l.len() == 2 {
        let r = catch(|| unsafe { (f.ne)(argv[0], argv[1]) });
        ensure!(r == Ok(!want[2]), format!("NE__{}", U::N), "NE({}) = {r:?}, expected {}", show(), !want[2]);
    }
    Ok(())
}
fn cmp_spaces<U: Unit>(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let alpha: [char; 6] = ['a', 'b', '\u{7f}', 'é', '\u{ffff}', '😀'];
    let l = if thorough(t) { 4 } else { 3 };
    let n = n_strings(6, l);
    v.push(space(format!("comparison {} all pairs to length {l}", U::N), n, move |i, cx| {
        let (f, m) = (U::fns(), mem::<U>());
        let a = U::enc(&nth_string(i, 6, &alpha));
        for j in 0..n {
            let b = U::enc(&nth_string(j, 6, &alpha));
            check_cmp::<U>(cx, &f, m, &[&a, &b])?;
        }
        cx.sample(|| format!("{} against all", U::show(&a)));
        Ok(())
    }));
    // lists of 3 and 4 over a set of 12 strings that contains prefixes and near misses
    let set: Vec<Vec<char>> = ["", "a", "aa", "ab", "b", "é", "a\u{7f}", "€", "\u{e000}", "😀", "aé", "A"].iter().map(|s| s.chars().collect()).collect();
    for n in [3u32, 4] {
        let set = set.clone();
        v.push(space(format!("comparison {} all lists of {n}", U::N), 12u64.pow(n), move |mut i, cx| {
            let e: Vec<Vec<U>> = (0..n).map(|_| U::enc(&set[dig(&mut i, 12)])).collect();
            let r: Vec<&[U]> = e.iter().map(|x| x.as_slice()).collect();
            check_cmp::<U>(cx, &U::fns(), mem::<U>(), &r)
        }));
    }
    // longer lists: ascending, descending and constant, with one step of each kind at each place
    let ns: Vec<usize> = (2..=40).chain([63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 258, 300, 1000]).collect();
    v.push(space(format!("comparison {} long lists", U::N), ns.len() as u64 * 3, move |mut i, cx| {
        let n = ns[dig(&mut i, ns.len() as u64)];
        let base = dig(&mut i, 3);
        let texts: Vec<Vec<U>> = (0..2 * n + 2).map(|k| U::enc(&format!("é{k:05}").chars().collect::<Vec<_>>())).collect();
        let zt: Vec<Vec<U>> = texts.iter().map(|t| t.iter().copied().chain([U::zero()]).collect()).collect();
        // ranks of the list: every step is that of the base, except one
        for place in (0..n).filter(|p| n <= 40 || *p < 4 || *p + 4 > n || *p % 64 == 0 || *p % 128 == 127) {
            for odd in 0..3i32 {
                let mut r = n as i32 + 1 - (n as i32) * (base as i32 - 1) / 1;
                let mut ranks = vec![];
                for k in 0..n {
                    ranks.push(r.clamp(0, 2 * n as i32 + 1) as usize);
                    r += if k == place { odd - 1 } else { base as i32 - 1 };
                }
                let l: Vec<&[U]> = ranks.iter().map(|r| texts[*r].as_slice()).collect();
                let argv: Vec<P<U>> = ranks.iter().map(|r| zt[*r].as_ptr()).collect();
                check_cmp_at::<U>(cx, &U::fns(), &l, &argv)?;
            }
            cx.beat();
        }
        Ok(())
    }));
    for kind in 0..4 {
        let ls = huge(t);
        v.push(space(format!("comparison {} very long texts, texture {kind}", U::N), ls.len() as u64, move |i, cx| {
            let (f, m) = (U::fns(), mem_huge::<U>());
            let a = texture(kind, ls[i as usize]);
            let ea = U::enc(&a);
            check_cmp::<U>(cx, &f, m, &[&ea, &ea])?;
            for p in [0, 1, 2048, 32767, 32768, 65535, 65536, ea.len() / 2, ea.len() - 1] {
                if p < ea.len() {
                    let eb = &ea[..p];
                    check_cmp::<U>(cx, &f, m, &[&ea, eb])?;
                    check_cmp::<U>(cx, &f, m, &[eb, &ea])?;
                }
                if p < a.len() {
                    let mut b = a.clone();
                    b[p] = if b[p] == '~' { '}' } else { '~' };
                    let eb = U::enc(&b);
                    check_cmp::<U>(cx, &f, m, &[&ea, &eb])?;
                    check_cmp::<U>(cx, &f, m, &[&eb, &ea])?;
                }
                cx.beat();
            }
            Ok(())
        }));
    }
    // every pair of code units as the deciding one (quick: boundary units)
    v.push(space(format!("comparison {} every character against its neighbours", U::N), 0x110000 / 256, move |i, cx| {
        let (f, m) = (U::fns(), mem::<U>());
        for cp in i as u32 * 256..(i as u32 + 1) * 256 {
            let Some(c) = char::from_u32(cp) else { continue };
            if cp == 0 {
                continue;
            }
            let a = U::enc(&['q', c]);
            for d in [cp.wrapping_sub(1), cp + 1, cp ^ 0x80, cp ^ 0x100, cp ^ 0x8000, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10ffff] {
                if let Some(d) = char::from_u32(d).filter(|d| *d != '\0') {
                    let b = U::enc(&['q', d]);
                    check_cmp::<U>(cx, &f, m, &[&a, &b])?;
                }
            }
        }
        Ok(())
    }));
    for kind in 0..4 {
        let ls = lengths::<U>(kind, t);
        v.push(space(format!("comparison {} long texture {kind}", U::N), ls.len() as u64, move |i, cx| {
            let (f, m) = (U::fns(), mem::<U>());
            let a = texture(kind, ls[i as usize]);
            let ea = U::enc(&a);
            check_cmp::<U>(cx, &f, m, &[&ea, &ea])?;
            for p in [0, 1, a.len() / 2, a.len().saturating_sub(2), a.len().saturating_sub(1)] {
                if p < a.len() {
                    let mut b = a.clone();
                    b[p] = if b[p] == '~' { '}' } else { '~' };
                    let eb = U::enc(&b);
                    if eb.len() <= CAP {
                        check_cmp::<U>(cx, &f, m, &[&ea, &eb])?;
                        check_cmp::<U>(cx, &f, m, &[&eb, &ea])?;
                    }
                    let eb = U::enc(&a[..p]);
                    check_cmp::<U>(cx, &f, m, &[&ea, &eb])?;
                    check_cmp::<U>(cx, &f, m, &[&eb, &ea])?;
                }
            }
            Ok(())
        }));
    }
    v
}
fn c12(t: Tier) -> Vec<Space> {
    let mut v = cmp_spaces::<u8>(t);
    v.extend(cmp_spaces::<u16>(t));
    v
}

pub fn props() -> Vec<Prop> {
    const A: &[&str] = &["sources are well-formed UTF-8/UTF-16", "source and destination do not overlap (the ST wrappers never let them)"];
    vec![
        Prop { id: "C08", level: "exploration", exhaustive: true, spaces: c08, assumptions: A,
            rule: "one case = one call; all strings over 1/2/3/4-byte characters to the length bound with all positions and counts in and around the string plus integer extremes; four textures of long strings at a grid of lengths to the capacity (thorough: every length); every Unicode character; non-trivial: more than one character or an expected abort" },
        Prop { id: "C09", level: "exploration", exhaustive: true, spaces: c09, assumptions: A,
            rule: "one case = one call; all (pairs of) strings over 1/2/3/4-byte characters to the length bound with all positions and counts in and around the string plus integer extremes; four textures of long strings at a grid of lengths to the capacity (thorough: every length); every Unicode character; non-trivial: more than one character or an expected abort" },
        Prop { id: "C10", level: "exploration", exhaustive: true, spaces: c10, assumptions: A,
            rule: "one case = one argument list; all lists of 1..4 (thorough 5) strings to length 2, lists of up to 64 arguments, long strings split at five points to the capacity, every Unicode character; non-trivial: more than one argument, not all empty" },
        Prop { id: "C11", level: "exploration", exhaustive: true, spaces: c11, assumptions: A,
            rule: "one case = one call; all haystack/needle pairs over four 3-letter alphabets and all overlap structures over 2 letters to the length bounds, long strings to the capacity, every Unicode character; non-trivial: non-empty needle, haystack longer than 1" },
        Prop { id: "C12", level: "exploration", exhaustive: true, spaces: c12, assumptions: A,
            rule: "one case = one argument list under all of GT GE EQ LE LT (NE for pairs); all pairs to the length bound over 6 characters incl. the unit boundaries, all lists of 3 and 4 over 12 strings, every character against 13 neighbours, long strings differing at one place; non-trivial: an adjacent pair of non-empty strings" },
    ]
}
