//! C34 string functions called from client programs, C35 conversions between texts and values called from client
//! programs.
use super::decl::*;
use super::dates::{civil, DAY};
use super::strings::{find_model, model, n_strings, nth_string, texture, Op, Unit, ALPHA, CAP};
use super::text::{dec, hms, int_set, real_texts, sdec, time_text, tods};
use crate::core::*;
use crate::ffi::*;
use crate::lang::{Out, Run};
use crate::*;

/// The variables of the caller: two texts and a result, each STRING[2048], each with memory around it watched.
struct Bufs<U: 'static> {
    g: Vec<Guard>,
    _u: std::marker::PhantomData<U>,
}
const PRE: usize = 32;
impl<U: Unit> Bufs<U> {
    fn new() -> &'static Bufs<U> {
        Box::leak(Box::new(Bufs { g: (0..3).map(|_| Guard::new(8 * PAGE)).collect(), _u: std::marker::PhantomData }))
    }
    fn at(&self, k: usize) -> *mut U {
        self.g[k].tail((CAP + 1) * std::mem::size_of::<U>()) as *mut U
    }
    fn regions(&self) -> Vec<(usize, usize)> {
        (0..3).map(|k| (self.at(k) as usize, (CAP + 1) * std::mem::size_of::<U>())).collect()
    }
    fn put(&self, k: usize, s: &[U]) -> u64 {
        let p = self.at(k);
        unsafe {
            for j in 0..PRE {
                *p.sub(PRE - j) = U::dirt(j + 7);
            }
            std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
            *p.add(s.len()) = U::zero();
            // what stood in the variable before
            for j in s.len() + 1..(s.len() + 9).min(CAP + 1) {
                *p.add(j) = U::dirt(j);
            }
        }
        p as u64
    }
    /// the caller's text and what stands around it are as before
    fn intact(&self, k: usize, s: &[U]) -> bool {
        let p = self.at(k);
        unsafe {
            (0..PRE).all(|j| *p.sub(PRE - j) == U::dirt(j + 7))
                && std::slice::from_raw_parts(p, s.len()) == s
                && *p.add(s.len()) == U::zero()
                && (s.len() + 1..(s.len() + 9).min(CAP + 1)).all(|j| *p.add(j) == U::dirt(j))
        }
    }
    fn out(&self) -> *mut u8 {
        let p = self.at(2);
        unsafe {
            for j in 0..PRE {
                *p.sub(PRE - j) = U::dirt(j + 7);
            }
            for j in 0..64 {
                *p.add(j) = U::dirt(j);
            }
        }
        p as *mut u8
    }
    fn result(&self) -> Result<&[U], String> {
        let p = self.at(2);
        unsafe {
            if !(0..PRE).all(|j| *p.sub(PRE - j) == U::dirt(j + 7)) {
                return Err("memory before the result was modified".into());
            }
            match (0..=CAP).find(|j| *p.add(*j) == U::zero()) {
                Some(n) => Ok(std::slice::from_raw_parts(p, n)),
                None => Err("the result has no terminator".into()),
            }
        }
    }
}
thread_local! { static BUFS: (&'static Bufs<u8>, &'static Bufs<u16>) = (Bufs::new(), Bufs::new()); }
trait Here: Unit {
    fn bufs() -> &'static Bufs<Self>;
}
impl Here for u8 {
    fn bufs() -> &'static Bufs<u8> {
        BUFS.with(|b| b.0)
    }
}
impl Here for u16 {
    fn bufs() -> &'static Bufs<u16> {
        BUFS.with(|b| b.1)
    }
}

type Model = fn(&[char], &[char], i32, i32) -> Option<Vec<char>>;
/// what a client function is called, what it does, its meaning; which of (b, l, p) matter
struct Cl {
    name: &'static str,
    body: &'static str,
    model: Model,
    uses: (bool, bool, bool),
}
fn cat(p: &[&[char]]) -> Option<Vec<char>> {
    Some(p.concat())
}
/// F is the function's own name, S its type, X the other text type
const CLIENTS: &[Cl] = &[
    Cl { name: "F_LEFT", body: "F := LEFT(a, l);", model: |a, _, l, _| model(Op::Left(l), a, &[]), uses: (false, true, false) },
    Cl { name: "F_RIGHT", body: "F := RIGHT(a, l);", model: |a, _, l, _| model(Op::Right(l), a, &[]), uses: (false, true, false) },
    Cl { name: "F_MID", body: "F := MID(a, l, p);", model: |a, _, l, p| model(Op::Mid(l, p), a, &[]), uses: (false, true, true) },
    Cl { name: "F_MIDNAMED", body: "F := MID(P := p, L := l, IN := a);", model: |a, _, l, p| model(Op::Mid(l, p), a, &[]), uses: (false, true, true) },
    Cl { name: "F_INSERT", body: "F := INSERT(a, b, p);", model: |a, b, _, p| model(Op::Ins(p), a, b), uses: (true, false, true) },
    Cl { name: "F_INSERTNAMED", body: "F := INSERT(P := p, IN2 := b, IN1 := a);", model: |a, b, _, p| model(Op::Ins(p), a, b), uses: (true, false, true) },
    Cl { name: "F_DELETE", body: "F := DELETE(a, l, p);", model: |a, _, l, p| model(Op::Del(l, p), a, &[]), uses: (false, true, true) },
    Cl { name: "F_DELETENAMED", body: "F := DELETE(P := p, L := l, IN := a);", model: |a, _, l, p| model(Op::Del(l, p), a, &[]), uses: (false, true, true) },
    Cl { name: "F_REPLACE", body: "F := REPLACE(a, b, l, p);", model: |a, b, l, p| model(Op::Rep(l, p), a, b), uses: (true, true, true) },
    Cl { name: "F_REPLACENAMED", body: "F := REPLACE(L := l, P := p, IN2 := b, IN1 := a);", model: |a, b, l, p| model(Op::Rep(l, p), a, b), uses: (true, true, true) },
    Cl { name: "F_LEFTX", body: "LEFT_EXT(a, l, F);", model: |a, _, l, _| model(Op::Left(l), a, &[]), uses: (false, true, false) },
    Cl { name: "F_RIGHTX", body: "RIGHT_EXT(a, l, F);", model: |a, _, l, _| model(Op::Right(l), a, &[]), uses: (false, true, false) },
    Cl { name: "F_MIDX", body: "MID_EXT(a, l, p, F);", model: |a, _, l, p| model(Op::Mid(l, p), a, &[]), uses: (false, true, true) },
    Cl { name: "F_INSERTX", body: "INSERT_EXT(a, b, p, F);", model: |a, b, _, p| model(Op::Ins(p), a, b), uses: (true, false, true) },
    Cl { name: "F_DELETEX", body: "DELETE_EXT(a, l, p, F);", model: |a, _, l, p| model(Op::Del(l, p), a, &[]), uses: (false, true, true) },
    Cl { name: "F_REPLACEX", body: "REPLACE_EXT(a, b, l, p, F);", model: |a, b, l, p| model(Op::Rep(l, p), a, b), uses: (true, true, true) },
    Cl { name: "F_CONCATX", body: "CONCAT_EXT(F, a, b);", model: |a, b, _, _| cat(&[a, b]), uses: (true, false, false) },
    Cl { name: "F_CONCAT", body: "F := CONCAT(a, b);", model: |a, b, _, _| cat(&[a, b]), uses: (true, false, false) },
    Cl { name: "F_CONCAT3", body: "F := CONCAT(a, b, a);", model: |a, b, _, _| cat(&[a, b, a]), uses: (true, false, false) },
    Cl { name: "F_NESTED", body: "F := CONCAT(CONCAT(a, b), CONCAT(b, a));", model: |a, b, _, _| cat(&[a, b, b, a]), uses: (true, false, false) },
    Cl {
        name: "F_ENDS",
        body: "F := CONCAT(LEFT(a, l), b, RIGHT(a, p));",
        model: |a, b, l, p| cat(&[&model(Op::Left(l), a, &[])?, b, &model(Op::Right(p), a, &[])?]),
        uses: (true, true, true),
    },
    Cl {
        name: "F_EDIT",
        body: "F := INSERT(DELETE(a, l, p), CONCAT(a, b), l);",
        model: |a, b, l, p| model(Op::Ins(l), &model(Op::Del(l, p), a, &[])?, &[a, b].concat()),
        uses: (true, true, true),
    },
    Cl {
        name: "F_SWAP",
        body: "F := REPLACE(CONCAT(a, b), LEFT(b, 1), l, p);",
        model: |a, b, l, p| {
            let i = [a, b].concat();
            model(Op::Rep(l, p), &i, &model(Op::Left(1), b, &[])?)
        },
        uses: (true, true, true),
    },
    Cl {
        name: "F_PICK",
        body: "F := MID(INSERT(a, b, p), l, 1);",
        model: |a, b, l, p| model(Op::Mid(l, 1), &model(Op::Ins(p), a, b)?, &[]),
        uses: (true, true, true),
    },
    Cl {
        name: "F_TAIL",
        body: "F := LEFT(RIGHT(CONCAT(a, b), l), p);",
        model: |a, b, l, p| model(Op::Left(p), &model(Op::Right(l), &[a, b].concat(), &[])?, &[]),
        uses: (true, true, true),
    },
    Cl {
        name: "F_INPLACE",
        body: "t := a; t := CONCAT(t, b); t := DELETE(t, l, p); F := t;",
        model: |a, b, l, p| model(Op::Del(l, p), &[a, b].concat(), &[]),
        uses: (true, true, true),
    },
    Cl {
        name: "F_LOOP",
        body: "t := a; FOR i := 1 TO l DO t := CONCAT(b, t); END_FOR F := t;",
        model: |a, b, l, _| {
            let mut t = vec![];
            (0..l).for_each(|_| t.extend(b));
            t.extend(a);
            Some(t)
        },
        uses: (true, true, false),
    },
    Cl {
        name: "F_LENS",
        body: "IF LEN(a) > LEN(b) THEN F := LEFT(a, LEN(b)); ELSE F := RIGHT(b, LEN(a)); END_IF",
        model: |a, b, _, _| Some(if a.len() > b.len() { a[..b.len()].to_vec() } else { b[b.len() - a.len()..].to_vec() }),
        uses: (true, false, false),
    },
    Cl {
        name: "F_CUT",
        body: "i := FIND(a, b); IF i > 0 THEN F := DELETE(a, LEN(b), i); ELSE F := b; END_IF",
        model: |a, b, _, _| {
            let i = find_model(a, b);
            if i > 0 {
                model(Op::Del(b.len() as i32, i), a, &[])
            } else {
                Some(b.to_vec())
            }
        },
        uses: (true, false, false),
    },
    Cl { name: "F_ACROSS", body: "F := X_TO_S(S_TO_X(CONCAT(a, b)));", model: |a, b, _, _| cat(&[a, b]), uses: (true, false, false) },
    Cl {
        name: "F_OTHER",
        body: "F := X_TO_S(CONCAT(S_TO_X(LEFT(a, l)), S_TO_X(b)));",
        model: |a, b, l, _| cat(&[&model(Op::Left(l), a, &[])?, b]),
        uses: (true, true, false),
    },
];
type NumModel = fn(&[char], &[char], &mut dyn FnMut(&[char], &[char]) -> std::cmp::Ordering) -> u64;
use std::cmp::Ordering::*;
/// functions that deliver a number; (name, result type, expression, meaning, limited to 80 units)
const NUMBERS: &[(&str, &str, &str, NumModel, bool)] = &[
    ("N_LEN", "DINT", "LEN(a)", |a, _, _| a.len() as u64, false),
    ("N_LENCAT", "DINT", "LEN(CONCAT(a, b))", |a, b, _| (a.len() + b.len()) as u64, false),
    ("N_FIND", "DINT", "FIND(a, b)", |a, b, _| find_model(a, b) as u64, false),
    ("N_FINDCAT", "DINT", "FIND(CONCAT(b, a), a)", |a, b, _| find_model(&[b, a].concat(), a) as u64, false),
    ("N_EQ", "BOOL", "EQ(a, b)", |a, b, c| (c(a, b) == Equal) as u64, false),
    ("N_NE", "BOOL", "NE(a, b)", |a, b, c| (c(a, b) != Equal) as u64, false),
    ("N_GT", "BOOL", "GT(a, b)", |a, b, c| (c(a, b) == Greater) as u64, false),
    ("N_GE", "BOOL", "GE(a, b)", |a, b, c| (c(a, b) != Less) as u64, false),
    ("N_LT", "BOOL", "LT(a, b)", |a, b, c| (c(a, b) == Less) as u64, false),
    ("N_LE", "BOOL", "LE(a, b)", |a, b, c| (c(a, b) != Greater) as u64, false),
    ("N_EQ3", "BOOL", "EQ(a, b, a)", |a, b, c| (c(a, b) == Equal) as u64, false),
    ("N_GT3", "BOOL", "GT(a, b, a)", |_, _, _| 0, false),
    ("N_GE3", "BOOL", "GE(a, b, a)", |a, b, c| (c(a, b) == Equal) as u64, false),
    ("N_GE3B", "BOOL", "GE(a, a, b)", |a, b, c| (c(a, b) != Less) as u64, false),
    ("N_LT3", "BOOL", "LT(a, b, CONCAT(b, a))", |a, b, c| (c(a, b) == Less && !a.is_empty()) as u64, false),
    ("N_LE3", "BOOL", "LE(a, b, b)", |a, b, c| (c(a, b) != Greater) as u64, false),
    ("N_SEQ", "BOOL", "S_EQUAL(a, b)", |a, b, c| (c(a, b) == Equal) as u64, true),
    ("N_SLT", "BOOL", "S_LESS(a, b)", |a, b, c| (c(a, b) == Less) as u64, true),
    ("N_SGT", "BOOL", "S_GREATER(a, b)", |a, b, c| (c(a, b) == Greater) as u64, true),
    ("N_OPEQ", "BOOL", "a = b", |a, b, c| (c(a, b) == Equal) as u64, true),
    ("N_OPLT", "BOOL", "a < b", |a, b, c| (c(a, b) == Less) as u64, true),
    ("N_OPGE", "BOOL", "a >= b", |a, b, c| (c(a, b) != Less) as u64, true),
];
fn words(s: &str, f: &str, ty: &str, other: &str) -> String {
    let mut r = String::new();
    let mut w = String::new();
    for c in s.chars().chain([' ']) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
            continue;
        }
        r += &match w.as_str() {
            "F" => f.to_string(),
            "X_TO_S" => format!("{other}_TO_{ty}"),
            "S_TO_X" => format!("{ty}_TO_{other}"),
            _ => match w.strip_prefix("S_") {
                Some(x) => format!("{ty}_{x}"),
                None => w.clone(),
            },
        };
        w.clear();
        r.push(c);
    }
    r
}
fn client<U: Unit>() -> Client {
    let ty = U::N;
    let other = if ty == "STRING" { "WSTRING" } else { "STRING" };
    let mut s = String::new();
    for c in CLIENTS {
        s += &format!(
            "FUNCTION {0} : {ty}[2048] VAR_INPUT {{ref}} a, b : {ty}[2048]; END_VAR VAR_INPUT l, p : DINT; END_VAR VAR i : DINT; t : {ty}[2048]; END_VAR {1} END_FUNCTION\n",
            c.name,
            words(c.body, c.name, ty, other)
        );
    }
    for (n, t, e, _, _) in NUMBERS {
        s += &format!("FUNCTION {n} : {t} VAR_INPUT {{ref}} a, b : {ty}[2048]; END_VAR {n} := {}; END_FUNCTION\n", words(e, n, ty, other));
    }
    Client::new(s)
}
fn quote(b: &str) -> String {
    b.replace("F :=", "result :=")
}
fn one<U: Here>(c: &Cl, run: &mut Run, f: usize, a: &[char], b: &[char], ea: &[U], eb: &[U], l: i32, p: i32, cx: &mut Ctx) -> R {
    let want = (c.model)(a, b, l, p);
    let wu = want.map(|w| U::enc(&w));
    if wu.as_ref().is_some_and(|w| w.len() > CAP) {
        return Ok(());
    }
    let m = U::bufs();
    let (pa, pb) = (m.at(0) as u64, m.at(1) as u64);
    let o = m.out();
    cx.case(wu.as_ref().map_or(true, |w| !w.is_empty()));
    let key = || format!("{} {}", &c.name[2..], U::N);
    let what = || format!("'{}' with a = {}, b = {}, l = {l}, p = {p} ({})", quote(c.body), U::show(ea), U::show(eb), U::N);
    match (run.call(f, &[pa, pb, l as i64 as u64, p as i64 as u64], o), &wu) {
        (Out::Skip, _) => return Ok(()),
        (Out::Bad(e), _) => bail!(key(), "{}: {e}", what()),
        (Out::Abort, None) => {}
        (Out::Abort, Some(w)) => bail!(key(), "{} aborts, expected {}", what(), U::show(w)),
        (Out::Val(_), None) => bail!(key(), "{} delivers a result, expected an abort", what()),
        (Out::Val(_), Some(w)) => match m.result() {
            Err(e) => bail!(key(), "{}: {e}", what()),
            Ok(g) => ensure!(g == &w[..], key(), "{} gives {}, expected {}", what(), U::show(g), U::show(w)),
        },
    }
    Ok(())
}
fn unchanged<U: Here>(a: &[U], b: &[U], who: &str) -> R {
    let m = U::bufs();
    ensure!(m.intact(0, a) && m.intact(1, b), who, "{who}: the texts {} and {} of the caller or the memory around them were modified", U::show(a), U::show(b));
    Ok(())
}
fn string_spaces<U: Here>(t: Tier, v: &mut Vec<Space>) {
    let (la, lb) = if thorough(t) { (4, 3) } else { (3, 2) };
    let cl = client::<U>();
    for c in CLIENTS {
        let cl2 = cl.clone();
        v.push(space(format!("{}: {} small texts", U::N, &c.name[2..]), n_strings(5, la), move |i, cx| {
            cl2.using(cx, &[c.name], |run, ix, cx| {
                let m = U::bufs();
                run.vm.regions = m.regions();
                let a = nth_string(i, 5, &ALPHA);
                let ea = U::enc(&a);
                m.put(0, &ea);
                let n = if c.uses.0 { n_strings(5, if a.len() <= 3 { lb } else { 2 }) } else { 1 };
                let top = a.len() as i32 + 3;
                for j in 0..n {
                    let b = nth_string(j, 5, &ALPHA);
                    let eb = U::enc(&b);
                    m.put(1, &eb);
                    for l in if c.uses.1 { -1..=top } else { 0..=0 } {
                        for p in if c.uses.2 { -1..=top } else { 0..=0 } {
                            one(c, run, ix[0], &a, &b, &ea, &eb, l, p, cx)?;
                        }
                    }
                    unchanged(&ea, &eb, &c.name[2..])?;
                }
                cx.sample(|| format!("'{}' on {}", quote(c.body), U::show(&ea)));
                Ok(())
            })
        }));
        // long texts: around the default length of a text variable and up to the standard length
        let lens: Vec<usize> = if thorough(t) {
            (0..=2048).filter(|n| n % 16 <= 1 || (70..=90).contains(n) || *n > 2030).collect()
        } else {
            vec![7, 40, 79, 80, 81, 82, 127, 128, 160, 255, 256, 257, 341, 500, 512, 682, 683, 1000, 1023, 1024, 2046, 2047, 2048]
        };
        let cl2 = cl.clone();
        v.push(space(format!("{}: {} long texts", U::N, &c.name[2..]), 4 * lens.len() as u64, move |i, cx| {
            cl2.using(cx, &[c.name], |run, ix, cx| {
                let m = U::bufs();
                run.vm.regions = m.regions();
                let a = texture(i as usize % 4, lens[i as usize / 4]);
                let ea = U::enc(&a);
                if ea.len() > CAP {
                    return Ok(());
                }
                m.put(0, &ea);
                let n = a.len() as i32;
                for kb in [0, 1, 3, 80, 81, 300, 900, 1024] {
                    if kb > 1 && !c.uses.0 {
                        continue;
                    }
                    let b = texture((i as usize + 1) % 4, kb);
                    let eb = U::enc(&b);
                    if eb.len() > CAP {
                        continue;
                    }
                    m.put(1, &eb);
                    let mut xs = vec![0, 1, 80, n / 2, n - 1, n, n + 1];
                    xs.dedup();
                    for &l in if c.uses.1 { &xs[..] } else { &[0][..] } {
                        if c.name == "F_LOOP" && l > 81 {
                            continue;
                        }
                        for &p in if c.uses.2 { &xs[..] } else { &[0][..] } {
                            // an intermediate result that does not fit its variable is out of scope
                            if kb as i32 * (1 + l.max(0)) > 1024 && c.name == "F_LOOP" || 2 * (ea.len() + eb.len()) > CAP && matches!(c.name, "F_INPLACE" | "F_ENDS" | "F_EDIT" | "F_SWAP" | "F_PICK" | "F_TAIL" | "F_ACROSS" | "F_OTHER") {
                                continue;
                            }
                            // converting may need up to three bytes for a unit
                            if matches!(c.name, "F_ACROSS" | "F_OTHER") && 4 * (a.len() + b.len()) > CAP {
                                continue;
                            }
                            one(c, run, ix[0], &a, &b, &ea, &eb, l, p, cx)?;
                        }
                    }
                    unchanged(&ea, &eb, &c.name[2..])?;
                }
                cx.sample(|| format!("'{}' on {}", quote(c.body), U::show(&ea)));
                Ok(())
            })
        }));
    }
    for (name, _, expr, meaning, short) in NUMBERS {
        let cl2 = cl.clone();
        let k = if thorough(t) { 4 } else { 3 };
        v.push(space(format!("{}: {expr} all small texts", U::N), n_strings(5, k), move |i, cx| {
            cl2.using(cx, &[name], |run, ix, cx| {
                let m = U::bufs();
                run.vm.regions = m.regions();
                let a = nth_string(i, 5, &ALPHA);
                let ea = U::enc(&a);
                let pa = m.put(0, &ea);
                for j in 0..n_strings(5, k) {
                    let b = nth_string(j, 5, &ALPHA);
                    number::<U>(run, ix[0], expr, *meaning, &a, &b, &ea, pa, cx)?;
                }
                cx.sample(|| format!("{expr} with a = {}", U::show(&ea)));
                Ok(())
            })
        }));
        let cl2 = cl.clone();
        let lens: &'static [usize] = &[10, 19, 20, 25, 26, 27, 39, 40, 41, 78, 79, 80, 81, 200, 256, 600, 1024];
        v.push(space(format!("{}: {expr} long texts", U::N), 4 * lens.len() as u64, move |i, cx| {
            cl2.using(cx, &[name], |run, ix, cx| {
                let m = U::bufs();
                run.vm.regions = m.regions();
                let a = texture(i as usize % 4, lens[i as usize / 4]);
                let ea = U::enc(&a);
                // STRING_EQUAL and its like take texts of the default length
                if ea.len() > if *short { 80 } else { CAP } {
                    return Ok(());
                }
                let pa = m.put(0, &ea);
                for cut in [0, 1, 2, a.len() / 2, a.len() - 1, a.len()] {
                    for tail in [None, Some('\u{1}'), Some('z'), Some('\u{fffd}'), Some('😀')] {
                        for whole in [false, true] {
                            let mut b = a.clone();
                            if whole {
                                if let (Some(c), true) = (tail, cut < b.len()) {
                                    b[cut] = c;
                                }
                            } else {
                                b.truncate(cut);
                                b.extend(tail);
                            }
                            if U::enc(&b).len() > if *short { 80 } else { CAP / 2 } {
                                continue;
                            }
                            if U::enc(&b).len() + ea.len() > CAP {
                                continue;
                            }
                            number::<U>(run, ix[0], expr, *meaning, &a, &b, &ea, pa, cx)?;
                        }
                    }
                }
                Ok(())
            })
        }));
    }
}
fn number<U: Here>(run: &mut Run, f: usize, expr: &str, meaning: NumModel, a: &[char], b: &[char], ea: &[U], pa: u64, cx: &mut Ctx) -> R {
    let m = U::bufs();
    let eb = U::enc(b);
    let pb = m.put(1, &eb);
    let w = meaning(a, b, &mut |x, y| U::enc(x).cmp(&U::enc(y)));
    cx.case(w != 0);
    let key = format!("{expr} {}", U::N);
    let g = value!(run, f, &[pa, pb], key.as_str(), format!("{expr} with a = {}, b = {} ({})", U::show(ea), U::show(&eb), U::N));
    ensure!(g == w, key.as_str(), "{expr} with a = {}, b = {} ({}) is {g}, expected {w}", U::show(ea), U::show(&eb), U::N);
    unchanged(ea, &eb, expr)
}
fn c34(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    string_spaces::<u8>(t, &mut v);
    string_spaces::<u16>(t, &mut v);
    v
}

// ---------------------------------------------------------------- C35 texts and values
fn text_of_call<U: Here>(run: &mut Run, f: usize, arg: u64, want: &[String], label: &str, what: impl Fn() -> String, cx: &mut Ctx) -> R {
    let m = U::bufs();
    let o = m.out();
    cx.case(want[0].len() > 1);
    match run.call(f, &[arg], o) {
        Out::Skip => return Ok(()),
        Out::Bad(e) => bail!(label, "{label}({}): {e}", what()),
        Out::Abort => bail!(label, "{label}({}) aborts, expected '{}'", what(), want[0]),
        Out::Val(_) => match m.result() {
            Err(e) => bail!(label, "{label}({}): {e}", what()),
            Ok(g) => {
                let ok = want.iter().any(|w| U::enc(&w.chars().collect::<Vec<_>>()) == g);
                ensure!(ok, label, "{label}({}) gives {}, expected '{}'", what(), U::show(g), want[0]);
            }
        },
    }
    Ok(())
}
fn texts_for<U: Here>(cl: &Client, ty: &'static str, xs: std::rc::Rc<Vec<u64>>, model: fn(u64) -> Vec<String>, v: &mut Vec<Space>) {
    let name = format!("{ty}_TO_{}", U::N);
    if !names().contains(&name) {
        return;
    }
    const CH: usize = 4096;
    let cl = cl.clone();
    v.push(space(name.clone(), xs.len().div_ceil(CH) as u64, move |i, cx| {
        cl.using(cx, &[&name], |run, ix, cx| {
            run.vm.regions = U::bufs().regions();
            for &x in xs.iter().skip(i as usize * CH).take(CH) {
                text_of_call::<U>(run, ix[0], x, &model(x), &name, || format!("{:#x}", x), cx)?;
            }
            cx.sample(|| format!("{name}({:#x})", xs[i as usize * CH]));
            Ok(())
        })
    }));
}
fn date_text(x: u64) -> String {
    let (y, m, d) = civil((x as i64).div_euclid(DAY));
    format!("{y:04}-{m:02}-{d:02}")
}
/// what a text means natively: the reference for the wide form of the same text
fn wide_number(run: &mut Run, f: usize, name: &str, s: &[char], cx: &mut Ctx) -> R {
    let (m8, m16) = (u8::bufs(), u16::bufs());
    let (e8, e16) = (u8::enc(s), u16::enc(s));
    let p8 = m8.put(0, &e8) as *const u8;
    let p16 = m16.put(0, &e16);
    let w = match name {
        "WSTRING_TO_LINT" => tri(|| unsafe { STRING_TO_LINT(p8) } as u64),
        "WSTRING_TO_DINT" => tri(|| unsafe { STRING_TO_DINT(p8) } as i64 as u64),
        "WSTRING_TO_LREAL" => tri(|| unsafe { STRING_TO_LREAL(p8) }.to_bits()),
        _ => tri(|| unsafe { STRING_TO_REAL(p8) }.to_bits() as u64),
    };
    cx.case(w.is_some() || s.len() > 1);
    let text = || u16::show(&e16);
    match (run.call(f, &[p16], std::ptr::null_mut()), w) {
        (Out::Skip, _) | (Out::Abort, None) => {}
        (Out::Bad(e), _) => bail!(name, "{name}({}): {e}", text()),
        (Out::Abort, Some(w)) => bail!(name, "{name}({}) aborts, {} delivers {w:#x}", text(), &name[1..]),
        (Out::Val(g), None) => bail!(name, "{name}({}) = {g:#x}, {} aborts", text(), &name[1..]),
        (Out::Val(g), Some(w)) => ensure!(g == w, name, "{name}({}) = {g:#x}, {} delivers {w:#x}", text(), &name[1..]),
    }
    ensure!(m16.intact(0, &e16), name, "{name}({}) modified its text", text());
    Ok(())
}
fn c35(t: Tier) -> Vec<Space> {
    let th = thorough(t);
    let cl = Client::new("");
    let mut v = vec![];
    let rc = |x: Vec<u64>| std::rc::Rc::new(x);
    let ints = rc(int_set());
    let narrow = |bits: u32, signed: bool| {
        let mut x: Vec<u64> = int_set().iter().map(|x| if signed { ((*x << (64 - bits)) as i64 >> (64 - bits)) as u64 } else { *x & (u64::MAX >> (64 - bits)) }).collect();
        x.sort();
        x.dedup();
        std::rc::Rc::new(x)
    };
    let sd: fn(u64) -> Vec<String> = |x| vec![sdec(x as i64 as i128)];
    let ud: fn(u64) -> Vec<String> = |x| vec![dec(x as u128)];
    let times: Vec<u64> = super::dates::times().iter().map(|x| *x as u64).collect();
    let mut instants: Vec<u64> = vec![];
    for d in (-106_751i64..=106_750).step_by(if th { 1 } else { 13 }).chain([-106_751, 106_750, -1, 0, 1]) {
        for k in [0, 1_000_000_000, 3_723_004_005_006, DAY - 1] {
            instants.push((d * DAY + k) as u64);
        }
    }
    let days: Vec<u64> = instants.iter().map(|x| ((*x as i64).div_euclid(DAY) * DAY) as u64).collect();
    let clock: Vec<u64> = tods().iter().map(|x| *x as u64).chain((0..86_400).step_by(if th { 1 } else { 7 }).map(|s| s * 1_000_000_000 + s)).collect();
    let mut lreals: Vec<u64> = vec![];
    for e in 0..2048u64 {
        for (k, m) in super::bits::lreal_mantissas().iter().enumerate() {
            if th || k % 16 == 0 {
                lreals.push(e << 52 | m);
                lreals.push(1 << 63 | e << 52 | m);
            }
        }
    }
    for k in 0..20_000u64 {
        lreals.push((k as f64 / 64.0).to_bits());
        lreals.push((-(k as f64) / 1000.0).to_bits());
    }
    for e in 1..25 {
        for d in [-1i64, 0, 1] {
            lreals.push((10f64.powi(e).to_bits() as i64 + d) as u64);
            lreals.push(((10f64.powi(e) - 0.0000005).to_bits() as i64 + d) as u64);
        }
    }
    let reals: Vec<u64> = (0..1u64 << 9)
        .flat_map(|e| (0..if th { 4096u64 } else { 128 }).map(move |m| e << 23 | (m * (0x7f_ffff / if th { 4096 } else { 128 }) + (m & 1))))
        .chain((0..3000u64).map(|k| ((k as f32) / 8.0).to_bits() as u64))
        .collect();
    let rd: fn(u64) -> Vec<String> = |x| real_texts(f64::from_bits(x), 1e14);
    let rs: fn(u64) -> Vec<String> = |x| real_texts(f32::from_bits(x as u32) as f64, 1e14);
    macro_rules! both {
        ($ty:expr, $xs:expr, $m:expr) => {{
            let xs = $xs;
            texts_for::<u8>(&cl, $ty, xs.clone(), $m, &mut v);
            texts_for::<u16>(&cl, $ty, xs, $m, &mut v);
        }};
    }
    both!("BYTE", rc((0..256).collect()), ud);
    both!("WORD", rc((0..65536).collect()), ud);
    both!("DWORD", narrow(32, false), ud);
    both!("LWORD", ints.clone(), ud);
    both!("SINT", narrow(8, true), sd);
    both!("INT", narrow(16, true), sd);
    both!("DINT", narrow(32, true), sd);
    both!("LINT", ints.clone(), sd);
    both!("USINT", narrow(8, false), ud);
    both!("UINT", narrow(16, false), ud);
    both!("UDINT", narrow(32, false), ud);
    both!("ULINT", ints, ud);
    let (times, instants, days, clock, lreals, reals) = (rc(times), rc(instants), rc(days), rc(clock), rc(lreals), rc(reals));
    for l in ["TIME", "LTIME"] {
        both!(l, times.clone(), |x| vec![time_text(x as i64)]);
    }
    for l in ["DATE", "LDATE"] {
        both!(l, days.clone(), |x| vec![date_text(x)]);
    }
    for l in ["DT", "LDT"] {
        both!(l, instants.clone(), |x| vec![format!("{}-{}", date_text(x), hms((x as i64).rem_euclid(DAY)))]);
    }
    for l in ["TOD", "LTOD"] {
        both!(l, clock.clone(), |x| vec![hms(x as i64)]);
    }
    both!("LREAL", lreals, rd);
    both!("REAL", reals, rs);
    // characters: a text of the one character, the empty text for the terminator
    let c2 = cl.clone();
    v.push(space("CHAR_TO_STRING: all characters", 256, move |i, cx| {
        c2.using(cx, &["CHAR_TO_STRING"], |run, ix, cx| {
            let m = u8::bufs();
            run.vm.regions = m.regions();
            let o = m.out();
            cx.case(i != 0);
            match run.call(ix[0], &[i], o) {
                Out::Skip => {}
                Out::Bad(e) => bail!("CHAR_TO_STRING", "CHAR_TO_STRING({i}): {e}"),
                Out::Abort => bail!("CHAR_TO_STRING", "CHAR_TO_STRING({i}) aborts"),
                Out::Val(_) => {
                    let w: &[u8] = if i == 0 { &[] } else { &[i as u8] };
                    match m.result() {
                        Err(e) => bail!("CHAR_TO_STRING", "CHAR_TO_STRING({i}): {e}"),
                        Ok(g) => ensure!(g == w, "CHAR_TO_STRING", "CHAR_TO_STRING({i}) has the bytes {g:?}, expected {w:?}"),
                    }
                }
            }
            Ok(())
        })
    }));
    let c2 = cl.clone();
    v.push(space("WCHAR_TO_WSTRING: all characters", 256, move |i, cx| {
        c2.using(cx, &["WCHAR_TO_WSTRING"], |run, ix, cx| {
            let m = u16::bufs();
            run.vm.regions = m.regions();
            for c in i << 8..(i + 1) << 8 {
                let o = m.out();
                cx.case(c != 0);
                match run.call(ix[0], &[c], o) {
                    Out::Skip => return Ok(()),
                    Out::Bad(e) => bail!("WCHAR_TO_WSTRING", "WCHAR_TO_WSTRING({c:#x}): {e}"),
                    Out::Abort => bail!("WCHAR_TO_WSTRING", "WCHAR_TO_WSTRING({c:#x}) aborts"),
                    Out::Val(_) => {
                        let w: &[u16] = if c == 0 { &[] } else { &[c as u16] };
                        match m.result() {
                            Err(e) => bail!("WCHAR_TO_WSTRING", "WCHAR_TO_WSTRING({c:#x}): {e}"),
                            Ok(g) => ensure!(g == w, "WCHAR_TO_WSTRING", "WCHAR_TO_WSTRING({c:#x}) has the units {g:x?}, expected {w:x?}"),
                        }
                    }
                }
            }
            Ok(())
        })
    }));
    let c2 = cl.clone();
    v.push(space("STRING_TO_CHAR, WSTRING_TO_WCHAR: all characters, all text lengths", 256, move |i, cx| {
        c2.using(cx, &["STRING_TO_CHAR", "WSTRING_TO_WCHAR"], |run, ix, cx| {
            let (m, w) = (u8::bufs(), u16::bufs());
            run.vm.regions = m.regions();
            run.vm.regions.extend(w.regions());
            let (c, tail) = (i as u8, [b'x'; 79]);
            for n in [0, 1, 2, 40, 79] {
                let mut s = vec![c];
                s.extend(&tail[..n]);
                let p = m.put(0, &s);
                cx.case(true);
                let g = value!(run, ix[0], &[p], "STRING_TO_CHAR", format!("STRING_TO_CHAR({s:?})"));
                ensure!(g == c as u64, "STRING_TO_CHAR", "STRING_TO_CHAR of a text of {} bytes starting with {c} is {g}", s.len());
                ensure!(m.intact(0, &s), "STRING_TO_CHAR", "STRING_TO_CHAR modified its text");
            }
            for k in i << 8..(i + 1) << 8 {
                let s = [k as u16, b'x' as u16, b'y' as u16];
                let s = &s[..1 + k as usize % 3];
                let p = w.put(0, s);
                cx.case(true);
                let g = value!(run, ix[1], &[p], "WSTRING_TO_WCHAR", format!("WSTRING_TO_WCHAR({s:x?})"));
                ensure!(g == k, "WSTRING_TO_WCHAR", "WSTRING_TO_WCHAR of {s:x?} is {g:#x}");
                ensure!(w.intact(0, s), "WSTRING_TO_WCHAR", "WSTRING_TO_WCHAR modified its text");
            }
            Ok(())
        })
    }));
    // wide numerals mean what the narrow ones mean
    const AL: [char; 12] = ['0', '1', '9', '-', '+', '.', 'e', 'x', '#', 'A', 'é', '€'];
    let k = if th { 5 } else { 4 };
    let total: u64 = (0..=k).map(|n| 12u64.pow(n)).sum();
    let mut long: Vec<Vec<char>> = vec![];
    for x in int_set().iter().step_by(if th { 1 } else { 5 }) {
        for s in [dec(*x as u128), sdec(*x as i64 as i128), format!("16#{x:x}"), format!("2#{x:b}"), format!("{:.17e}", f64::from_bits(*x))] {
            long.push(s.chars().collect());
        }
    }
    for n in 1..=80usize {
        for c in ['0', '1', ' ', 'é', '€', '\u{ffff}'] {
            let mut s = vec![c; n];
            long.push(s.clone());
            s[n - 1] = '7';
            long.push(s.clone());
            s[0] = '-';
            long.push(s.clone());
            s[n / 2] = '.';
            long.push(s);
        }
        long.push("😀".repeat(n / 2).chars().collect());
    }
    long.retain(|s| u16::enc(s).len() <= 80);
    let long = std::rc::Rc::new(long);
    for name in ["WSTRING_TO_LINT", "WSTRING_TO_DINT", "WSTRING_TO_LREAL", "WSTRING_TO_REAL"] {
        let c2 = cl.clone();
        const CH: u64 = 512;
        v.push(space(format!("{name}: all texts to length {k}"), total.div_ceil(CH), move |i, cx| {
            c2.using(cx, &[name], |run, ix, cx| {
                run.vm.regions = u16::bufs().regions();
                for j in i * CH..((i + 1) * CH).min(total) {
                    wide_number(run, ix[0], name, &nth_string(j, 12, &AL), cx)?;
                }
                Ok(())
            })
        }));
        let (c2, long) = (cl.clone(), long.clone());
        v.push(space(format!("{name}: numerals and long texts"), long.len().div_ceil(64) as u64, move |i, cx| {
            c2.using(cx, &[name], |run, ix, cx| {
                run.vm.regions = u16::bufs().regions();
                for s in long.iter().skip(i as usize * 64).take(64) {
                    wide_number(run, ix[0], name, s, cx)?;
                }
                Ok(())
            })
        }));
    }
    // value -> text -> value through the declared functions
    let rt = Client::new(
        "FUNCTION R_LINT : LINT VAR_INPUT x : LINT; END_VAR R_LINT := STRING_TO_LINT(LINT_TO_STRING(x)); END_FUNCTION
         FUNCTION RW_LINT : LINT VAR_INPUT x : LINT; END_VAR RW_LINT := WSTRING_TO_LINT(LINT_TO_WSTRING(x)); END_FUNCTION
         FUNCTION R_DINT : DINT VAR_INPUT x : DINT; END_VAR R_DINT := STRING_TO_DINT(DINT_TO_STRING(x)); END_FUNCTION
         FUNCTION RW_DINT : DINT VAR_INPUT x : DINT; END_VAR RW_DINT := WSTRING_TO_DINT(DINT_TO_WSTRING(x)); END_FUNCTION",
    );
    for (name, wide) in [("R_LINT", true), ("RW_LINT", true), ("R_DINT", false), ("RW_DINT", false)] {
        let rt = rt.clone();
        let xs = if wide { rc(int_set()) } else { narrow(32, true) };
        v.push(space(format!("{name}: value to text to value"), xs.len().div_ceil(1024) as u64, move |i, cx| {
            rt.using(cx, &[name], |run, ix, cx| {
                run.vm.regions.clear();
                for &x in xs.iter().skip(i as usize * 1024).take(1024) {
                    cx.case(x != 0);
                    let g = value!(run, ix[0], &[x], name, format!("text of {} converted back", x as i64));
                    ensure!(g == x, name, "{} converted to text and back ({name}) is {}", x as i64, g as i64);
                }
                Ok(())
            })
        }));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C34", level: "exploration", exhaustive: true, spaces: c34, rule: "31 client functions (every string function positionally, by parameter name and in its _EXT form; nested and chained calls, in-place updates, loops, conversions in between) for STRING and WSTRING x all texts to the length bound over characters of every encoding length x every count and position around the length; long texts around 80 and up to 2048 units; 22 length, search and comparison expressions over all pairs of texts; one case = one call, compared with lists of characters, texts of the caller and memory around them compared before and after", assumptions: ASS },
        Prop { id: "C35", level: "exploration", exhaustive: true, spaces: c35, rule: "every declared value-to-text conversion for STRING and WSTRING: all 8- and 16-bit values, boundary integers of every magnitude, every exponent of REAL and LREAL, days, times of day and durations; every CHAR and WCHAR; wide numerals: all texts to the length bound over a numeral alphabet with non-ASCII characters, every boundary numeral, texts of every length to 80; round trips; one case = one call", assumptions: ASS },
    ]
}
