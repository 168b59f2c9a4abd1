//! The declared half of the library: C37 function blocks through instances declared in a client program.
//!
//! The client declares two instances between guard variables and calls one of them per cycle, in one of the ways a
//! program calls a block.  Explicit-state search over (reference model of both instances, the client's memory).
use crate::core::*;
use crate::ffi;
use crate::lang::{Out, Run};
use crate::props::decl::Client;
use crate::props::fb::{cmodel, counter_layout, tiny_model, tmodel, CLay, COp, Search, Tiny, CM, TK};
use crate::*;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Md {
    C(CM),
    B(bool),
    T(bool, Option<i64>),
}
#[derive(Clone, Copy)]
enum Ki {
    C(CLay),
    B(Tiny),
    T(TK),
}
/// a function block as a program sees it
#[derive(Clone)]
struct Blk {
    name: &'static str,
    ki: Ki,
    /// names and types of inputs and outputs, in order
    ins: Vec<(&'static str, String)>,
    outs: Vec<(&'static str, String)>,
}
fn blk(name: &'static str) -> Blk {
    let b = || "BOOL".to_string();
    let (ki, ins, outs) = match name {
        "R_TRIG" => (Ki::B(Tiny::RTrig), vec![("CLK", b())], vec![("Q", b())]),
        "F_TRIG" => (Ki::B(Tiny::FTrig), vec![("CLK", b())], vec![("Q", b())]),
        "SR" => (Ki::B(Tiny::Sr), vec![("SET1", b()), ("RESET", b())], vec![("Q1", b())]),
        "RS" => (Ki::B(Tiny::Rs), vec![("SET", b()), ("RESET1", b())], vec![("Q1", b())]),
        _ if name.starts_with("CT") => {
            let l = counter_layout(name);
            let t = name.split_once('_').map_or("INT", |x| x.1).to_string();
            let pv = ("PV", t.clone());
            match l.kind {
                0 => (Ki::C(l), vec![("CU", b()), ("R", b()), pv], vec![("Q", b()), ("CV", t)]),
                1 => (Ki::C(l), vec![("CD", b()), ("LD", b()), pv], vec![("Q", b()), ("CV", t)]),
                _ => (Ki::C(l), vec![("CU", b()), ("CD", b()), ("R", b()), ("LD", b()), pv], vec![("QU", b()), ("QD", b()), ("CV", t)]),
            }
        }
        _ => {
            let k = if name.starts_with("TON") {
                TK::Ton
            } else if name.starts_with("TOF") {
                TK::Tof
            } else {
                TK::Tp
            };
            (Ki::T(k), vec![("IN", b()), ("PT", "TIME".into())], vec![("Q", b()), ("ET", "TIME".into())])
        }
    };
    Blk { name, ki, ins, outs }
}
impl Blk {
    fn fresh(&self) -> Md {
        match self.ki {
            Ki::C(_) => Md::C(CM { cv: 0, pu: false, pd: false }),
            Ki::B(_) => Md::B(false),
            Ki::T(_) => Md::T(false, None),
        }
    }
    fn step(&self, m: &Md, i: &[i64], now: i64) -> (Md, Vec<i64>) {
        match (self.ki, m) {
            (Ki::C(l), Md::C(m)) => {
                let n = l.nin;
                let mut o = COp { inp: [false; 4], pv: if l.signed { i[n] as i128 } else { i[n] as u64 as i128 }, init: None, kind: l.kind };
                for k in 0..n {
                    o.inp[k] = i[k] != 0;
                }
                let (m, qu, qd) = cmodel(&l, m, &o);
                let cv = m.cv as i64;
                let outs = match l.kind {
                    0 => vec![qu as i64, cv],
                    1 => vec![qd as i64, cv],
                    _ => vec![qu as i64, qd as i64, cv],
                };
                (Md::C(m), outs)
            }
            (Ki::B(k), Md::B(m)) => {
                let (m, q) = tiny_model(k, *m, i[0] != 0, i.get(1).is_some_and(|x| *x != 0));
                (Md::B(m), vec![q as i64])
            }
            (Ki::T(k), Md::T(prev, st)) => {
                let (q, et, st) = tmodel(k, *st, *prev, i[0] != 0, i[1], [now; 3]);
                (Md::T(i[0] != 0, st), vec![q as i64, et])
            }
            _ => unreachable!(),
        }
    }
    /// the last input takes a value of `last`, the others are Boolean (the last one too, for triggers and bistables)
    fn inputs(&self, last: &[i64]) -> Vec<Vec<i64>> {
        let n = self.ins.len();
        let bools = if matches!(self.ki, Ki::B(_)) { n } else { n - 1 };
        let mut v = vec![];
        for k in 0..1i64 << bools {
            let b: Vec<i64> = (0..bools).map(|i| k >> i & 1).collect();
            if bools == n {
                v.push(b);
            } else {
                for l in last {
                    let mut b = b.clone();
                    b.push(*l);
                    v.push(b);
                }
            }
        }
        v
    }
}
/// ways to call a block
const WAYS: &[&str] = &["formal parameters", "positional parameters", "formal parameters in reverse order", "assignments to the inputs and a call without parameters", "a call without parameters", "some parameters only"];
/// the statements that call instance `v` of `b` in way `w`; p: prefix of the client's variables
fn call(b: &Blk, v: &str, p: &str, w: usize) -> String {
    let f = |i: usize| format!("{} := {p}i{i}", b.ins[i].0);
    let o = |i: usize| format!("{} => {p}o{i}", b.outs[i].0);
    let (n, m) = (b.ins.len(), b.outs.len());
    let read: String = (0..m).map(|i| format!("{p}o{i} := {v}.{}; ", b.outs[i].0)).collect();
    match w {
        0 => format!("{v}({});", (0..n).map(f).chain((0..m).map(o)).collect::<Vec<_>>().join(", ")),
        1 => format!("{v}({}); {read}", (0..n).map(|i| format!("{p}i{i}")).collect::<Vec<_>>().join(", ")),
        2 => format!("{v}({});", (0..m).map(o).chain((0..n).map(f)).rev().collect::<Vec<_>>().join(", ")),
        3 => format!("{} {v}(); {read}", (0..n).map(|i| format!("{v}.{} := {p}i{i};", b.ins[i].0)).collect::<Vec<_>>().join(" ")),
        4 => format!("{v}(); {read}"),
        // the first parameter only: the others keep what they had
        _ => format!("{v}({}); {read}", f(0)),
    }
}
fn client(a: &Blk, b: &Blk) -> String {
    let mut s = String::from("FUNCTION_BLOCK CL\nVAR_INPUT sel : SINT;\n");
    for (p, k) in [("x", a), ("y", b)] {
        for (i, (_, t)) in k.ins.iter().enumerate() {
            s += &format!("{p}i{i} : {t};\n");
        }
    }
    s += "END_VAR\nVAR_OUTPUT\n";
    for (p, k) in [("x", a), ("y", b)] {
        for (i, (_, t)) in k.outs.iter().enumerate() {
            s += &format!("{p}o{i} : {t};\n{p}m{i} : {t};\n");
        }
    }
    s += &format!("END_VAR\nVAR g0 : LWORD; x : {}; b1 : BYTE; g1 : LWORD; y : {}; b2 : BYTE; g2 : LWORD; END_VAR\nCASE sel OF\n", a.name, b.name);
    for (j, (p, k)) in [("x", a), ("y", b)].into_iter().enumerate() {
        for w in 0..WAYS.len() {
            s += &format!("{}: {}\n", j * WAYS.len() + w, call(k, p, p, w));
        }
    }
    s += "END_CASE\n";
    // what the outputs read as, whatever was called
    for (p, k) in [("x", a), ("y", b)] {
        for (i, (o, _)) in k.outs.iter().enumerate() {
            s += &format!("{p}m{i} := {p}.{o};\n");
        }
    }
    s + "END_FUNCTION_BLOCK\n"
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct St {
    m: [Md; 2],
    /// the inputs and outputs each instance holds
    inp: [Vec<i64>; 2],
    out: [Vec<i64>; 2],
    now: i64,
}
#[derive(Clone)]
struct Op {
    who: usize,
    way: usize,
    inp: Vec<i64>,
    dt: i64,
    names: [&'static str; 2],
}
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.way == usize::MAX {
            return write!(f, "x : {}, y : {}", self.names[0], self.names[1]);
        }
        write!(f, "+{}ns {}{:?} by {}", self.dt, ["x", "y"][self.who], self.inp, WAYS[self.way])
    }
}
const GUARD: [u64; 3] = [0x5EED_0001_A5A5_0001, 0x5EED_0002_5A5A_8002, 0x5EED_0003_C3C3_F003];
const BEHIND: [i64; 2] = [0xA5, 0x5B];
struct Layout {
    size: usize,
    sel: usize,
    ins: [Vec<(usize, usize)>; 2],
    outs: [Vec<(usize, usize, usize)>; 2],
    guards: [usize; 3],
    /// the bytes right behind the instances
    behind: [usize; 2],
    /// not part of the state: overwritten in every cycle
    volatile: Vec<(usize, usize)>,
}
fn layout(run: &Run, i: usize, a: &[&Blk; 2]) -> Option<Layout> {
    let u = &run.p.pous[i];
    let off = |n: &str| u.var(n).map(|v| v.off as usize);
    let width = |t: &str| match t {
        "BOOL" => 1,
        "INT" => 2,
        "DINT" | "UDINT" => 4,
        _ => 8,
    };
    let mut l = Layout { size: u.inst as usize, sel: off("sel")?, ins: [vec![], vec![]], outs: [vec![], vec![]], guards: [off("g0")?, off("g1")?, off("g2")?], behind: [off("b1")?, off("b2")?], volatile: vec![] };
    l.volatile.push((l.sel, 1));
    for (j, p) in ["x", "y"].iter().enumerate() {
        for (k, (_, t)) in a[j].ins.iter().enumerate() {
            let o = off(&format!("{p}i{k}"))?;
            l.ins[j].push((o, width(t)));
            l.volatile.push((o, width(t)));
        }
        for (k, (_, t)) in a[j].outs.iter().enumerate() {
            l.outs[j].push((off(&format!("{p}o{k}"))?, off(&format!("{p}m{k}"))?, width(t)));
        }
    }
    Some(l)
}
fn put(m: &mut [u64], off: usize, w: usize, v: i64) {
    let p = m.as_mut_ptr() as *mut u8;
    unsafe { std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), p.add(off), w) }
}
fn fetch(m: &[u64], off: usize, w: usize) -> i64 {
    let mut b = [0u8; 8];
    unsafe { std::ptr::copy_nonoverlapping((m.as_ptr() as *const u8).add(off), b.as_mut_ptr(), w) }
    i64::from_le_bytes(b)
}
fn mask(v: i64, w: usize) -> i64 {
    if w == 8 {
        v
    } else {
        v & ((1 << (8 * w)) - 1)
    }
}
/// one cycle of the client; mem: its memory before, then after
fn cycle(run: &mut Run, i: usize, l: &Layout, bl: &[&Blk; 2], mem: &mut Vec<u64>, m: &St, o: &Op) -> Result<Option<St>, String> {
    put(mem, l.sel, 1, (o.who * WAYS.len() + o.way) as i64);
    let mut n = m.clone();
    n.now += o.dt;
    for (k, v) in o.inp.iter().enumerate() {
        put(mem, l.ins[o.who][k].0, l.ins[o.who][k].1, *v);
        if o.way < 4 || o.way == 5 && k == 0 {
            n.inp[o.who][k] = *v;
        }
    }
    set_mono(n.now);
    match run.cycle(i, mem.as_mut_ptr() as *mut u8) {
        Out::Val(_) => {}
        Out::Abort => return Err("the cycle aborts".into()),
        Out::Bad(e) => return Err(e),
        Out::Skip => return Ok(None),
    }
    let (md, outs) = bl[o.who].step(&m.m[o.who], &n.inp[o.who], n.now);
    n.m[o.who] = md;
    n.out[o.who] = outs;
    for j in 0..2 {
        for (k, &(copy, member, w)) in l.outs[j].iter().enumerate() {
            let want = mask(n.out[j][k], w);
            let got = fetch(mem, member, w);
            let nm = ["x", "y"][j];
            if got != want {
                return Err(format!("{nm}.{} = {got}, expected {want}", bl[j].outs[k].0));
            }
            let got = fetch(mem, copy, w);
            if got != want {
                return Err(format!("the variable given for output {} of {nm} holds {got}, expected {want}", bl[j].outs[k].0));
            }
        }
    }
    for (k, g) in l.guards.iter().enumerate() {
        if fetch(mem, *g, 8) as u64 != GUARD[k] {
            return Err(format!("a variable {} was overwritten", ["before x", "between x and y", "after y"][k]));
        }
    }
    for (k, g) in l.behind.iter().enumerate() {
        if fetch(mem, *g, 1) != BEHIND[k] {
            return Err(format!("the variable right behind {} was overwritten", ["x", "y"][k]));
        }
    }
    for &(off, w) in &l.volatile {
        put(mem, off, w, 0);
    }
    Ok(Some(n))
}
fn search(bl: [&Blk; 2], ops: Vec<Op>, depth: usize, cap: usize, base: i64, cl: &Client, cx: &mut Ctx) -> R {
    let key = format!("{}/{}", bl[0].name, bl[1].name);
    cl.using(cx, &["CL"], |run, ix, cx| {
        let Some(l) = layout(run, ix[0], &bl) else { return Ok(()) };
        let mut mem = vec![0u64; l.size.div_ceil(8) + 4];
        run.vm.init(ix[0], mem.as_mut_ptr() as *mut u8);
        for (k, g) in l.guards.iter().enumerate() {
            put(&mut mem, *g, 8, GUARD[k] as i64);
        }
        for (k, g) in l.behind.iter().enumerate() {
            put(&mut mem, *g, 1, BEHIND[k]);
        }
        for k in 0..4 {
            let n = mem.len();
            mem[n - 1 - k] = 0xEE;
        }
        let zero = |b: &Blk| (vec![0i64; b.ins.len()], vec![0i64; b.outs.len()]);
        let ((i0, o0), (i1, o1)) = (zero(bl[0]), zero(bl[1]));
        let st = St { m: [bl[0].fresh(), bl[1].fresh()], inp: [i0, i1], out: [o0, o1], now: base };
        let names = [bl[0].name, bl[1].name];
        let init: Box<[u64]> = mem.clone().into();
        let mut skipped = false;
        let r = Search::run(
            vec![(st.clone(), init.clone(), Op { who: 0, way: usize::MAX, inp: vec![], dt: 0, names })],
            depth,
            cap,
            cx,
            &key,
            |_| ops.clone(),
            |m, b, o, _| {
                let mut mem = b.to_vec();
                match cycle(run, ix[0], &l, &bl, &mut mem, m, o)? {
                    Some(n) => Ok((n, mem.into())),
                    None => {
                        skipped = true;
                        Ok((m.clone(), b.clone()))
                    }
                }
            },
        )
        .map_err(|e| fail(e.key, e.msg))?;
        if skipped {
            cx.count("clients not modelled", 1);
            return Ok(());
        }
        // the same histories on one live client
        let stride = (r.states.len() / 2_000).max(1);
        for i in (0..r.states.len()).step_by(stride) {
            let path = r.path(i);
            let mut mem = init.to_vec();
            let mut m = st.clone();
            for o in &path[1..] {
                match cycle(run, ix[0], &l, &bl, &mut mem, &m, o) {
                    Ok(Some(n)) => m = n,
                    Ok(None) => return Ok(()),
                    Err(e) => bail!(key, "history {path:?}: {e}"),
                }
            }
            cx.traces += 1;
            cx.beat();
        }
        cx.nontrivial += r.states.iter().filter(|s| s.0.out.iter().any(|o| o.iter().any(|v| *v != 0))).count() as u64;
        cx.sample(|| format!("{:?}", r.path(r.states.len() - 1)));
        Ok(())
    })
}
fn ops(bl: [&Blk; 2], last: &[i64], dts: &[i64], ways: &[usize]) -> Vec<Op> {
    let names = [bl[0].name, bl[1].name];
    let mut v = vec![];
    for who in 0..2 {
        for &way in ways {
            let ins = match way {
                4 => vec![vec![]],
                5 => vec![vec![0], vec![1]],
                _ => bl[who].inputs(last),
            };
            for inp in ins {
                for &dt in dts {
                    v.push(Op { who, way, inp: inp.clone(), dt, names });
                }
            }
        }
    }
    v
}
fn c37(t: Tier) -> Vec<Space> {
    let names: Vec<&'static str> = ffi::FBS.iter().map(|f| f.0).collect();
    let th = thorough(t);
    let mut v = vec![];
    // one block: two instances, all ways of calling
    for &n in &names {
        let timer = matches!(blk(n).ki, Ki::T(_));
        let (depth, cap) = if th { (8, 60_000) } else { (5, 4_000) };
        v.push(space(format!("two instances of {n}"), 1, move |_, cx| {
            let b = blk(n);
            let cl = Client::new(client(&b, &b));
            let bl = [&b, &b];
            cx.note(n);
            if timer {
                search(bl, ops(bl, &[0, 3], &[0, 2], &[0, 1, 2, 3, 4, 5]), depth, cap, 1_000, &cl, cx)?;
                const S: i64 = 1_000_000_000;
                search(bl, ops(bl, &[10 * S, 5_000_000 * S], &[1, 10 * S - 1, 10 * S, 4_000_000 * S], &[0, 4]), depth, cap, 7 * S - 3, &cl, cx)
            } else {
                let l = match b.ki {
                    Ki::C(l) if l.w == 2 => vec![2, -1, i16::MAX as i64],
                    Ki::C(l) if l.w == 4 && l.signed => vec![2, -1, i32::MAX as i64],
                    Ki::C(l) if l.w == 4 => vec![2, 0, u32::MAX as i64],
                    Ki::C(l) if l.signed => vec![2, i64::MIN, i64::MAX],
                    _ => vec![2, 0, -1],
                };
                search(bl, ops(bl, &l, &[0], &[0, 1, 2, 3, 4, 5]), depth, cap, 0, &cl, cx)
            }
        }));
    }
    // every pair of blocks side by side
    let k = names.len() as u64;
    let (depth, cap) = if th { (5, 4_000) } else { (3, 300) };
    v.push(space(format!("pairs of blocks to depth {depth}"), k * k, move |i, cx| {
        let (a, b) = (blk(names[(i / k) as usize]), blk(names[(i % k) as usize]));
        let cl = Client::new(client(&a, &b));
        let bl = [&a, &b];
        cx.note(&format!("{} and {}", a.name, b.name));
        search(bl, ops(bl, &[2], &[3], &[0, 3]), depth, cap, 50, &cl, cx)
    }));
    v
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C37", level: "model_checking", exhaustive: true, spaces: c37,
        rule: "a client function block declares two instances x and y of library blocks between guard variables (both of one block, for all 31 blocks; and every ordered pair of blocks) and calls one of them per cycle with formal, positional, reordered, assigned, missing or partial parameters; explicit-state search over (reference models of both instances, held inputs, the client's whole memory): from every reached state every call of the alphabet is made; both instances' outputs as members and as `=>` targets, guards, and the other instance are checked in every transition; traces = histories repeated on one live client",
        assumptions: super::decl::ASS,
    }]
}
