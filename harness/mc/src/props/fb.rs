//! Function blocks: C01 counters, C02 edge triggers, C03 bistables, C04-C06 timers, C07 instance memory.
//!
//! Explicit-state search over the product of a reference model and the real instance memory: a state is
//! (model state, bytes of the instance); a transition writes the inputs into the instance, calls the real
//! block and compares.  Instances live at the end of a page followed by an inaccessible one, canaries before.
use crate::core::*;
use crate::ffi::{self, Fb};
use crate::*;
use std::collections::HashMap;
use std::hash::Hash;

// ------------------------------------------------------------------ instance memory
pub struct Slot {
    g: Guard,
    pub size: usize,
}
const CANARY: usize = 32;
impl Slot {
    pub fn new(size: usize) -> Slot {
        Slot { g: Guard::new(PAGE), size }
    }
    #[inline]
    pub fn p(&self) -> *mut u8 {
        self.g.tail(self.size)
    }
    #[inline]
    fn load(&self, b: &[u8]) {
        unsafe {
            std::ptr::write_bytes(self.p().sub(CANARY), 0xC7, CANARY);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.p(), self.size);
        }
    }
    #[inline]
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p(), self.size) }
    }
    #[inline]
    fn intact(&self) -> bool {
        unsafe { std::slice::from_raw_parts(self.p().sub(CANARY), CANARY).iter().all(|&b| b == 0xC7) }
    }
    #[inline]
    pub fn set(&self, off: usize, n: usize, v: i128) {
        let b = (v as i64 as u64).to_le_bytes();
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.p().add(off), n) }
    }
    #[inline]
    pub fn get(&self, off: usize, n: usize, signed: bool) -> i128 {
        get(self.bytes(), off, n, signed)
    }
}
fn get(b: &[u8], off: usize, n: usize, signed: bool) -> i128 {
    let mut v = 0u64;
    for k in (0..n).rev() {
        v = v << 8 | b[off + k] as u64;
    }
    if signed {
        let s = 64 - 8 * n as u32;
        ((v << s) as i64 >> s) as i128
    } else {
        v as i128
    }
}

// ------------------------------------------------------------------ search
pub const ROOM: usize = 96;
pub type Img = [u8; ROOM];

// ------------------------------------------------------------------ declared layout
/// Where a program keeps the inputs and outputs of an instance, and how many bytes it reserves: (offset, width).
#[derive(Clone)]
pub struct Shape {
    pub size: usize,
    pub ins: Vec<(usize, usize)>,
    pub outs: Vec<(usize, usize)>,
}
fn al(o: usize, a: usize) -> usize {
    (o + a - 1) / a * a
}
/// names of the inputs and outputs with their widths
fn members(name: &str) -> (Vec<(&'static str, usize)>, Vec<(&'static str, usize)>) {
    match name {
        "R_TRIG" | "F_TRIG" => (vec![("CLK", 1)], vec![("Q", 1)]),
        "SR" => (vec![("SET1", 1), ("RESET", 1)], vec![("Q1", 1)]),
        "RS" => (vec![("SET", 1), ("RESET1", 1)], vec![("Q1", 1)]),
        _ if name.starts_with("CT") => {
            let w = match name.split_once('_').map(|x| x.1) {
                None | Some("INT") => 2,
                Some("DINT" | "UDINT") => 4,
                _ => 8,
            };
            if name.starts_with("CTUD") {
                (vec![("CU", 1), ("CD", 1), ("R", 1), ("LD", 1), ("PV", w)], vec![("QU", 1), ("QD", 1), ("CV", w)])
            } else if name.starts_with("CTU") {
                (vec![("CU", 1), ("R", 1), ("PV", w)], vec![("Q", 1), ("CV", w)])
            } else {
                (vec![("CD", 1), ("LD", 1), ("PV", w)], vec![("Q", 1), ("CV", w)])
            }
        }
        _ => (vec![("IN", 1), ("PT", 8)], vec![("Q", 1), ("ET", 8)]),
    }
}
/// The layout the Structured Text declaration gives an instance; where the declaration cannot be read, the one it
/// has at present.
pub fn shape(name: &str) -> Shape {
    static DECL: std::sync::OnceLock<HashMap<String, Shape>> = std::sync::OnceLock::new();
    let all = DECL.get_or_init(|| {
        let mut all = HashMap::new();
        if let Some(p) = crate::lang::program("") {
            for (n, _) in ffi::FBS {
                let Some(u) = p.find(n) else { continue };
                let at = |(m, w): &(&'static str, usize)| match u.var(m) {
                    Some(st::lower::Var { ty: st::Ty::El(e), off, by_ref: false, frame: false, .. }) if e.size() as usize == *w => Some((*off as usize, *w)),
                    _ => None,
                };
                let (i, o) = members(n);
                let (ins, outs) = (i.iter().map(at).collect::<Option<Vec<_>>>(), o.iter().map(at).collect::<Option<Vec<_>>>());
                if let (Some(ins), Some(outs), true, true) = (ins, outs, u.err.is_none(), u.inst as usize <= ROOM) {
                    all.insert(n.to_string(), Shape { size: u.inst as usize, ins, outs });
                }
            }
        }
        all
    });
    all.get(name).cloned().unwrap_or_else(|| {
        let (i, o) = members(name);
        let (mut off, mut align) = (0, 1);
        let mut place = |(_, w): &(&'static str, usize)| {
            let a = al(off, *w);
            off = a + w;
            align = align.max(*w);
            (a, *w)
        };
        let ins = i.iter().map(&mut place).collect();
        let outs = o.iter().map(&mut place).collect();
        // behind the outputs: edge memory (two for CTUD, none for the bistables), a buffer of 24 bytes for the timers
        let size = match name {
            "SR" | "RS" => off,
            _ if name.starts_with("CTUD") => al(off + 2, align),
            _ if name.starts_with("CT") || name.ends_with("TRIG") => al(off + 1, align),
            _ => al(off + 1, 8) + 24,
        };
        Shape { size, ins, outs }
    })
}
/// Breadth-first product search. `step` returns the successor or a description of the disagreement.
pub struct Search<M, O, I = Img> {
    pub states: Vec<(M, I)>,
    parent: Vec<(u32, O)>,
    index: HashMap<(M, I), u32>,
}
impl<M: Clone + Eq + Hash, O: Clone + std::fmt::Debug, I: Clone + Eq + Hash> Search<M, O, I> {
    pub fn run(
        inits: Vec<(M, I, O)>,
        depth: usize,
        max_states: usize,
        cx: &mut Ctx,
        key: &str,
        ops: impl Fn(&M) -> Vec<O>,
        mut step: impl FnMut(&M, &I, &O, &mut Ctx) -> Result<(M, I), String>,
    ) -> Result<Self, Fail> {
        let mut s = Search { states: vec![], parent: vec![], index: HashMap::new() };
        for (m, b, o) in inits {
            if !s.index.contains_key(&(m.clone(), b.clone())) {
                s.index.insert((m.clone(), b.clone()), s.states.len() as u32);
                s.states.push((m, b));
                s.parent.push((u32::MAX, o));
            }
        }
        let mut lo = 0;
        let mut d = 0;
        let mut fix = false;
        while d < depth {
            let hi = s.states.len();
            if lo == hi {
                fix = true;
                break;
            }
            for i in lo..hi {
                cx.beat();
                let (m, b) = s.states[i].clone();
                for o in ops(&m) {
                    cx.transitions += 1;
                    match step(&m, &b, &o, cx) {
                        Ok(n) => {
                            if s.states.len() < max_states && !s.index.contains_key(&n) {
                                s.index.insert(n.clone(), s.states.len() as u32);
                                s.states.push(n);
                                s.parent.push((i as u32, o));
                            }
                        }
                        Err(e) => {
                            let path: Vec<String> = s.path(i).iter().map(|o| format!("{o:?}")).collect();
                            return Err(fail(key, format!("after calls [{}] then {o:?}: {e}", path.join(", "))));
                        }
                    }
                }
            }
            lo = hi;
            d += 1;
        }
        cx.states += s.states.len() as u64;
        cx.max("depth", d as u64);
        cx.count(if fix { "searches run to fixpoint" } else { "searches run to the depth bound" }, 1);
        if s.states.len() >= max_states {
            cx.count("searches capped by the state limit", 1);
        }
        Ok(s)
    }
    /// operations from (and including the marker of) the initial state to state i
    pub fn path(&self, mut i: usize) -> Vec<O> {
        let mut v = vec![];
        loop {
            let (p, o) = &self.parent[i];
            v.push(o.clone());
            if *p == u32::MAX {
                break;
            }
            i = *p as usize;
        }
        v.reverse();
        v
    }
}

// ------------------------------------------------------------------ counters
#[derive(Clone, Copy)]
pub struct CLay {
    pub kind: u8, // 0 CTU 1 CTD 2 CTUD
    pub w: usize,
    pub signed: bool,
    pub inp: [usize; 4],
    pub pv: usize,
    pub q: usize,  // Q / QU
    pub q2: usize, // QD
    pub cv: usize,
    pub nin: usize,
    pub size: usize,
}
pub fn counter_layout(name: &str) -> CLay {
    let kind = if name.starts_with("CTUD") {
        2
    } else if name.starts_with("CTU") {
        0
    } else {
        1
    };
    let (w, signed) = match name.split_once('_').map(|x| x.1) {
        None | Some("INT") => (2, true),
        Some("DINT") => (4, true),
        Some("UDINT") => (4, false),
        Some("LINT") => (8, true),
        _ => (8, false),
    };
    let nin = if kind == 2 { 4 } else { 2 };
    let sh = shape(name);
    let mut inp = [0; 4];
    (0..nin).for_each(|k| inp[k] = sh.ins[k].0);
    let (pv, q, q2, cv, size) = (sh.ins[nin].0, sh.outs[0].0, sh.outs[sh.outs.len() - 2].0, sh.outs[sh.outs.len() - 1].0, sh.size);
    CLay { kind, w, signed, inp, pv, q, q2, cv, nin, size }
}
impl CLay {
    fn lo(&self) -> i128 {
        if self.signed {
            -(1i128 << (8 * self.w - 1))
        } else {
            0
        }
    }
    fn hi(&self) -> i128 {
        if self.signed {
            (1i128 << (8 * self.w - 1)) - 1
        } else {
            (1i128 << (8 * self.w)) - 1
        }
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct CM {
    pub cv: i128,
    pub pu: bool,
    pub pd: bool,
}
/// inputs in declaration order: CTU [CU,R], CTD [CD,LD], CTUD [CU,CD,R,LD]
#[derive(Clone)]
pub struct COp {
    pub inp: [bool; 4],
    pub pv: i128,
    pub init: Option<i128>,
    pub kind: u8,
}
impl std::fmt::Debug for COp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if let Some(c) = self.init {
            return if c == 0 { write!(f, "fresh instance") } else { write!(f, "instance with CV={c}") };
        }
        let n: &[&str] = match self.kind {
            0 => &["CU", "R"],
            1 => &["CD", "LD"],
            _ => &["CU", "CD", "R", "LD"],
        };
        for (i, k) in n.iter().enumerate() {
            write!(f, "{k}={} ", self.inp[i] as u8)?;
        }
        write!(f, "PV={}", self.pv)
    }
}
pub fn cmodel(l: &CLay, m: &CM, o: &COp) -> (CM, bool, bool) {
    let (cu, cd, r, ld) = match l.kind {
        0 => (o.inp[0], false, o.inp[1], false),
        1 => (false, o.inp[0], false, o.inp[1]),
        _ => (o.inp[0], o.inp[1], o.inp[2], o.inp[3]),
    };
    let mut n = m.clone();
    if r {
        n.cv = 0
    } else if ld {
        n.cv = o.pv
    } else {
        let up = cu && !m.pu;
        let down = cd && !m.pd;
        n.pu = cu;
        n.pd = cd;
        let d = up as i128 - down as i128;
        if n.cv + d >= l.lo() && n.cv + d <= l.hi() {
            n.cv += d
        }
    }
    let (qu, qd) = (n.cv >= o.pv, n.cv <= 0);
    (n, qu, qd)
}
fn cstep(f: Fb, l: &CLay, s: &Slot, m: &CM, b: &Img, o: &COp) -> Result<(CM, Img), String> {
    s.load(b);
    for i in 0..l.nin {
        s.set(l.inp[i], 1, o.inp[i] as i128)
    }
    s.set(l.pv, l.w, o.pv);
    if tri(|| unsafe { f(s.p()) }).is_none() {
        return Err("the call aborts".into());
    }
    let (n, qu, qd) = cmodel(l, m, o);
    let cv = s.get(l.cv, l.w, l.signed);
    let by = s.bytes();
    if cv != n.cv {
        return Err(format!("CV = {cv}, expected {} (was {})", n.cv, m.cv));
    }
    let q = if l.kind == 1 { qd } else { qu };
    if by[l.q] != q as u8 {
        return Err(format!("Q/QU = {}, expected {} at CV {cv}", by[l.q], q as u8));
    }
    if l.kind == 2 && by[l.q2] != qd as u8 {
        return Err(format!("QD = {}, expected {} at CV {cv}", by[l.q2], qd as u8));
    }
    for i in 0..l.nin {
        if by[l.inp[i]] != o.inp[i] as u8 {
            return Err(format!("input #{i} was modified"));
        }
    }
    if s.get(l.pv, l.w, l.signed) != o.pv {
        return Err("PV was modified".into());
    }
    if !s.intact() {
        return Err("memory before the instance was modified".into());
    }
    let mut img = [0u8; ROOM];
    img[..l.size].copy_from_slice(by);
    // inputs are overwritten before the next call: not part of the state
    l.inp[..l.nin].iter().for_each(|i| img[*i] = 0);
    img[l.pv..l.pv + l.w].fill(0);
    Ok((n, img))
}
fn cops(l: &CLay, pvs: &[i128]) -> Vec<COp> {
    let mut v = vec![];
    for &pv in pvs {
        for k in 0..1u8 << l.nin {
            let inp = [k & 1 != 0, k & 2 != 0, k & 4 != 0, k & 8 != 0];
            v.push(COp { inp, pv, init: None, kind: l.kind });
        }
    }
    v
}
fn near(l: &CLay) -> Vec<i128> {
    let mut v = vec![];
    for c in [l.lo(), 0, l.hi()] {
        for d in -3..=3 {
            if c + d >= l.lo() && c + d <= l.hi() {
                v.push(c + d)
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn counters() -> Vec<&'static str> {
    ffi::FBS.iter().map(|f| f.0).filter(|n| n.starts_with("CT")).collect()
}
fn c01(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    for name in counters() {
        let l = counter_layout(name);
        let f = ffi::fb(name);
        // histories from the zero-initialised instance and from instances near the limits, to a depth bound
        let depth = if thorough(t) { 60 } else { 14 };
        v.push(space(format!("{name} histories"), 1, move |_, cx| {
            let s = Slot::new(l.size);
            let pvs: Vec<i128> = near(&l).into_iter().filter(|p| p.abs() <= 2 || *p <= l.lo() + 1 || *p >= l.hi() - 1).collect();
            let inits: Vec<_> = std::iter::once(0)
                .chain(near(&l))
                .map(|cv| {
                    let mut b = [0u8; ROOM];
                    b[l.cv..l.cv + l.w].copy_from_slice(&(cv as i64 as u64).to_le_bytes()[..l.w]);
                    (CM { cv, pu: false, pd: false }, b, COp { inp: [false; 4], pv: 0, init: Some(cv), kind: l.kind })
                })
                .collect();
            let ops = cops(&l, &pvs);
            cx.note(name);
            let r = Search::run(inits, depth, 4_000_000, cx, name, |_| ops.clone(), |m, b, o, _| cstep(f, &l, &s, m, b, o))
                .map_err(|e| fail(e.key, format!("{name} {}", e.msg)))?;
            // every state again, as a plain history on one live instance without any snapshot
            let mut done = 0;
            let stride = (r.states.len() / if thorough(t) { 2_000_000 } else { 60_000 }).max(1);
            for i in (0..r.states.len()).step_by(stride) {
                let path = r.path(i);
                let mut b = [0u8; ROOM];
                b[l.cv..l.cv + l.w].copy_from_slice(&(path[0].init.unwrap() as i64 as u64).to_le_bytes()[..l.w]);
                s.load(&b);
                for o in &path[1..] {
                    for i in 0..l.nin {
                        s.set(l.inp[i], 1, o.inp[i] as i128)
                    }
                    s.set(l.pv, l.w, o.pv);
                    unsafe { f(s.p()) };
                }
                let cv = s.get(l.cv, l.w, l.signed);
                ensure!(cv == r.states[i].0.cv, name, "{name} history {path:?} ends with CV={cv}, expected {}", r.states[i].0.cv);
                done += 1;
                cx.beat();
            }
            cx.traces += done;
            cx.sample(|| format!("{name}: {:?}", r.path(r.states.len() - 1)));
            Ok(())
        }));
        // one live instance over very many calls: whatever is kept beyond the declared state has time to overflow
        let calls = if thorough(t) { 3_000_000u64 } else { 150_000 };
        v.push(space(format!("{name} long runs"), 6, move |pat, cx| {
            let s = Slot::new_shared(l.size);
            s.load(&[0; ROOM]);
            let mut m = CM { cv: 0, pu: false, pd: false };
            let pv = if l.w == 2 { 30_000 } else { 70_000 };
            for i in 0..calls {
                let e = i & 1 == 0;
                let (a, b, c, d) = match pat {
                    0 => (e, false, false, false),
                    1 => (false, e, false, i == 0),
                    2 => (e, e, false, false),
                    3 => (e, i & 2 == 0, false, i % 70_001 == 0),
                    4 => (e, true, i % 66_000 == 65_999, false),
                    _ => (true, e, false, i == 1),
                };
                let inp = match l.kind {
                    0 => [a, c, false, false],
                    1 => [if pat == 0 { a } else { b }, d, false, false],
                    _ => [a, b, c, d],
                };
                let o = COp { inp, pv, init: None, kind: l.kind };
                for (k, x) in inp.iter().enumerate().take(l.nin) {
                    s.set(l.inp[k], 1, *x as i128)
                }
                s.set(l.pv, l.w, pv);
                unsafe { f(s.p()) };
                let (n, qu, qd) = cmodel(&l, &m, &o);
                let (cv, by) = (s.get(l.cv, l.w, l.signed), s.bytes());
                let q = if l.kind == 1 { qd } else { qu };
                if cv != n.cv || by[l.q] != q as u8 || l.kind == 2 && by[l.q2] != qd as u8 {
                    bail!(name, "{name} call {i} of long run {pat} ({o:?}): CV={cv} Q/QU={} QD={}, expected CV={} Q/QU={} QD={} (CV was {})", by[l.q], by[l.q2], n.cv, q as u8, qd as u8, m.cv);
                }
                m = n;
            }
            cx.transitions += calls;
            cx.traces += 1;
            Ok(())
        }));
        // one call from every counter value (16 bit: all 65536) and every edge memory
        let cvs: Vec<i128> = if l.w == 2 { (l.lo()..=l.hi()).collect() } else { bounds(8 * l.w as u32, l.signed) };
        let chunk = 64usize;
        let n = (cvs.len() + chunk - 1) / chunk;
        v.push(space(format!("{name} from every CV"), n as u64, move |i, cx| {
            let s = Slot::new_shared(l.size);
            // edge memories reached through real calls
            let mut mems = vec![];
            for k in 0..4u8 {
                let o = COp { inp: if l.kind == 2 { [k & 1 != 0, k & 2 != 0, false, false] } else { [k & 1 != 0, false, false, false] }, pv: 5, init: None, kind: l.kind };
                let r = cstep(f, &l, &s, &CM { cv: 0, pu: false, pd: false }, &[0; ROOM], &o).map_err(|e| fail(name, format!("{name} first call {o:?}: {e}")))?;
                if !mems.contains(&r) {
                    mems.push(r);
                }
            }
            for &cv in &cvs[i as usize * chunk..((i as usize + 1) * chunk).min(cvs.len())] {
                let mut pvs = near(&l);
                pvs.extend([cv - 1, cv, cv + 1].into_iter().filter(|p| *p >= l.lo() && *p <= l.hi()));
                let ops = cops(&l, &pvs);
                for (m0, b0) in &mems {
                    let m = CM { cv, ..m0.clone() };
                    let mut b = *b0;
                    b[l.cv..l.cv + l.w].copy_from_slice(&(cv as i64 as u64).to_le_bytes()[..l.w]);
                    cx.states += 1;
                    for o in &ops {
                        cx.transitions += 1;
                        if let Err(e) = cstep(f, &l, &s, &m, &b, o) {
                            bail!(name, "{name} with CV={cv}, previous CU/CD {:?}: call {o:?}: {e}", (m.pu, m.pd));
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    v
}
thread_local! { static SLOTS: std::cell::RefCell<HashMap<usize, *mut u8>> = Default::default(); }
impl Slot {
    /// reuses one mapping per size
    pub fn new_shared(size: usize) -> Slot {
        let base = SLOTS.with(|m| *m.borrow_mut().entry(size).or_insert_with(|| Guard::new(PAGE).base));
        Slot { g: Guard { base, cap: PAGE }, size }
    }
}

// ------------------------------------------------------------------ triggers and bistables
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tiny {
    RTrig,
    FTrig,
    Sr,
    Rs,
}
#[derive(Clone)]
struct TOp(Option<(bool, bool)>, Tiny);
impl std::fmt::Debug for TOp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match (self.0, self.1) {
            (None, _) => write!(f, "fresh instance"),
            (Some((a, _)), Tiny::RTrig | Tiny::FTrig) => write!(f, "CLK={}", a as u8),
            (Some((a, b)), _) => write!(f, "S={} R={}", a as u8, b as u8),
        }
    }
}
/// model state: previous CLK (triggers) or Q1 (bistables)
pub fn tiny_model(k: Tiny, m: bool, a: bool, b: bool) -> (bool, bool) {
    match k {
        Tiny::RTrig => (a, a && !m),
        Tiny::FTrig => (a, !a && m),
        Tiny::Sr => {
            let q = a || (!b && m);
            (q, q)
        }
        Tiny::Rs => {
            let q = !b && (a || m);
            (q, q)
        }
    }
}
fn tiny_step(k: Tiny, f: Fb, h: &Shape, s: &Slot, m: bool, b: &Img, o: (bool, bool)) -> Result<(bool, Img), String> {
    let trig = matches!(k, Tiny::RTrig | Tiny::FTrig);
    s.load(b);
    s.set(h.ins[0].0, 1, o.0 as i128);
    if !trig {
        s.set(h.ins[1].0, 1, o.1 as i128);
    }
    if tri(|| unsafe { f(s.p()) }).is_none() {
        return Err("the call aborts".into());
    }
    let (n, q) = tiny_model(k, m, o.0, o.1);
    let by = s.bytes();
    let qo = h.outs[0].0;
    if by[qo] != q as u8 {
        return Err(format!("Q = {}, expected {}", by[qo], q as u8));
    }
    if by[h.ins[0].0] != o.0 as u8 || (!trig && by[h.ins[1].0] != o.1 as u8) {
        return Err("an input was modified".into());
    }
    if !s.intact() {
        return Err("memory before the instance was modified".into());
    }
    let mut img = [0u8; ROOM];
    img[..h.size].copy_from_slice(by);
    h.ins.iter().for_each(|i| img[i.0] = 0);
    Ok((n, img))
}
fn tiny(name: &'static str, k: Tiny, t: Tier) -> Vec<Space> {
    let f = ffi::fb(name);
    let n = if matches!(k, Tiny::RTrig | Tiny::FTrig) { 2u64 } else { 4 };
    let len = match (thorough(t), n) {
        (false, 2) => 18,
        (false, _) => 9,
        (true, 2) => 26,
        (true, _) => 13,
    };
    let dec = move |d: usize| (d & 1 != 0, d & 2 != 0);
    vec![
        space(format!("{name} product search"), 1, move |_, cx| {
            let h = shape(name);
            let s = Slot::new(h.size);
            cx.note(name);
            let r = Search::run(
                vec![(false, [0u8; ROOM], TOp(None, k))],
                1000,
                100_000,
                cx,
                name,
                |_| (0..n as usize).map(|d| TOp(Some(dec(d)), k)).collect(),
                |m, b, o, _| tiny_step(k, f, &h, &s, *m, b, o.0.unwrap()),
            )?;
            cx.sample(|| format!("{name}: {} product states, deepest {:?}", r.states.len(), r.path(r.states.len() - 1)));
            Ok(())
        }),
        // all histories of a given length on one live instance, no snapshots
        space(format!("{name} histories of length {len}"), n.pow(len).div_ceil(1024), move |blk, cx| {
            let sh = shape(name);
            let s = Slot::new_shared(sh.size);
            cx.note(name);
            for h in blk * 1024..((blk + 1) * 1024).min(n.pow(len)) {
                let mut i = h;
                s.load(&[0; ROOM]);
                let mut m = false;
                let trig = n == 2;
                for step in 0..len {
                    let o = dec(dig(&mut i, n));
                    s.set(sh.ins[0].0, 1, o.0 as i128);
                    if !trig {
                        s.set(sh.ins[1].0, 1, o.1 as i128)
                    }
                    unsafe { f(s.p()) };
                    let (nm, q) = tiny_model(k, m, o.0, o.1);
                    m = nm;
                    let got = s.bytes()[sh.outs[0].0];
                    if got != q as u8 {
                        let mut i = h;
                        let ops: Vec<_> = (0..=step).map(|_| TOp(Some(dec(dig(&mut i, n))), k)).collect();
                        bail!(name, "{name} history {ops:?}: Q = {got}, expected {}", q as u8);
                    }
                }
                cx.traces += 1;
            }
            Ok(())
        }),
    ]
}
fn tiny_long(name: &'static str, k: Tiny, t: Tier) -> Space {
    let f = ffi::fb(name);
    let calls = if thorough(t) { 5_000_000u64 } else { 200_000 };
    space(format!("{name} long runs"), 8, move |pat, cx| {
        let sh = shape(name);
        let s = Slot::new_shared(sh.size);
        cx.note(name);
        s.load(&[0; ROOM]);
        let trig = matches!(k, Tiny::RTrig | Tiny::FTrig);
        let mut m = false;
        for i in 0..calls {
            let (a, b) = match pat {
                0 => (i & 1 == 1, i & 2 == 2),
                1 => (i & 1 == 0, i & 1 == 1),
                2 => (i % 70_000 >= 69_999, i % 70_000 == 35_000),
                3 => (i % 70_000 < 69_999, false),
                4 => (i % 300 < 2, i % 300 == 299),
                5 => (i % 5 < 2, i % 7 < 3),
                6 => (false, i > 100_000),
                _ => (true, i & 1 == 0),
            };
            s.set(sh.ins[0].0, 1, a as i128);
            if !trig {
                s.set(sh.ins[1].0, 1, b as i128)
            }
            unsafe { f(s.p()) };
            let (n, q) = tiny_model(k, m, a, b);
            m = n;
            let got = s.bytes()[sh.outs[0].0];
            ensure!(got == q as u8, name, "{name} call {i} of long run {pat}: Q = {got}, expected {}", q as u8);
        }
        cx.transitions += calls;
        cx.traces += 1;
        Ok(())
    })
}
fn c02(t: Tier) -> Vec<Space> {
    let mut v = tiny("R_TRIG", Tiny::RTrig, t);
    v.extend(tiny("F_TRIG", Tiny::FTrig, t));
    v.push(tiny_long("R_TRIG", Tiny::RTrig, t));
    v.push(tiny_long("F_TRIG", Tiny::FTrig, t));
    v
}
fn c03(t: Tier) -> Vec<Space> {
    let mut v = tiny("SR", Tiny::Sr, t);
    v.extend(tiny("RS", Tiny::Rs, t));
    v.push(tiny_long("SR", Tiny::Sr, t));
    v.push(tiny_long("RS", Tiny::Rs, t));
    v
}

// ------------------------------------------------------------------ timers
#[derive(Clone, Copy)]
struct TLay {
    inp: usize,
    pt: usize,
    q: usize,
    et: usize,
    size: usize,
}
fn tlay(name: &str) -> TLay {
    let h = shape(name);
    TLay { inp: h.ins[0].0, pt: h.ins[1].0, q: h.outs[0].0, et: h.outs[1].0, size: h.size }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TK {
    Tp,
    Ton,
    Tof,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct TM {
    prev: bool,
    /// possible start times (a set: with a clock that advances between two reads of one call, the
    /// property does not say which read counts)
    st: Vec<Option<i64>>,
    now: i64,
}
#[derive(Clone)]
struct TimOp {
    init: bool,
    dt: i64,
    inp: bool,
    pt: i64,
    jit: i64,
}
impl std::fmt::Debug for TimOp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.init {
            return write!(f, "fresh instance at t={}ns", self.dt);
        }
        write!(f, "+{}ns IN={} PT={}", self.dt, self.inp as u8, self.pt)?;
        if self.jit > 0 {
            write!(f, " (clock +{} per read)", self.jit)?
        }
        Ok(())
    }
}
/// r: clock readings used for ET, for the range decision, for a new start
pub fn tmodel(k: TK, st: Option<i64>, prev: bool, inp: bool, pt: i64, r: [i64; 3]) -> (bool, i64, Option<i64>) {
    let rise = inp && !prev;
    let fall = !inp && prev;
    match k {
        TK::Ton => {
            if !inp {
                (false, 0, None)
            } else if rise {
                (false, 0, Some(r[2]))
            } else {
                let s = st.expect("IN stays TRUE only after it rose");
                (r[1] - s > pt, pt.min(r[0] - s), st)
            }
        }
        TK::Tof => {
            if inp {
                (true, 0, None)
            } else if fall {
                (true, 0, Some(r[2]))
            } else if let Some(s) = st {
                (r[1] - s <= pt, pt.min(r[0] - s), st)
            } else {
                (false, 0, None)
            }
        }
        TK::Tp => {
            if let Some(s) = st {
                if r[1] - s <= pt {
                    return (true, pt.min(r[0] - s), st);
                }
                if inp && !rise {
                    return (false, pt.min(r[0] - s), st);
                }
            }
            if rise {
                (true, 0, Some(r[2]))
            } else {
                (false, 0, None)
            }
        }
    }
}
fn timstep(k: TK, f: Fb, l: TLay, s: &Slot, m: &TM, b: &Img, o: &TimOp) -> Result<(TM, Img), String> {
    s.load(b);
    s.set(l.inp, 1, o.inp as i128);
    s.set(l.pt, 8, o.pt as i128);
    let now = m.now + o.dt;
    set_mono(now);
    CLOCK.with(|c| {
        c.jitter.set(o.jit);
        c.reads.set(0)
    });
    let r = tri(|| unsafe { f(s.p()) });
    let reads = CLOCK.with(|c| {
        c.jitter.set(0);
        c.reads.get()
    });
    if r.is_none() {
        return Err("the call aborts".into());
    }
    let by = s.bytes();
    let q = by[l.q];
    let et = s.get(l.et, 8, true) as i64;
    if by[l.inp] != o.inp as u8 || s.get(l.pt, 8, true) as i64 != o.pt {
        return Err("an input was modified".into());
    }
    if !s.intact() {
        return Err("memory before the instance was modified".into());
    }
    let nr = if o.jit == 0 { 1 } else { reads.max(1) as i64 };
    let rd: Vec<i64> = (0..nr).map(|i| now + i * o.jit).collect();
    let mut st = vec![];
    let mut exp = vec![];
    for &c in &m.st {
        for &a in &rd {
            for &d in &rd {
                for &e in &rd {
                    let (mq, met, mst) = tmodel(k, c, m.prev, o.inp, o.pt, [a, d, e]);
                    if mq as u8 == q && met == et {
                        if !st.contains(&mst) {
                            st.push(mst)
                        }
                    } else if !exp.contains(&(mq, met)) {
                        exp.push((mq, met))
                    }
                }
            }
        }
    }
    if st.is_empty() {
        return Err(format!("Q={q} ET={et}, expected {}", exp.iter().map(|(q, e)| format!("Q={} ET={e}", *q as u8)).collect::<Vec<_>>().join(" or ")));
    }
    st.sort();
    let mut img = [0u8; ROOM];
    img[..s.size].copy_from_slice(by);
    img[l.inp] = 0;
    img[l.pt..l.pt + 8].fill(0);
    let end = if o.jit == 0 { now } else { now + (nr - 1) * o.jit };
    Ok((TM { prev: o.inp, st, now: end }, img))
}
struct TCfg {
    name: &'static str,
    pts: Vec<i64>,
    dts: Vec<i64>,
    jits: Vec<i64>,
    bases: Vec<i64>,
    depth: [usize; 2],
}
fn tcfgs() -> Vec<TCfg> {
    const S: i64 = 1_000_000_000;
    const D: i64 = 86_400 * S;
    vec![
        TCfg { name: "ns steps", pts: vec![0, 1, 3], dts: vec![0, 1, 2], jits: vec![0], bases: vec![0, 5 * S - 3], depth: [11, 24] },
        TCfg { name: "ns steps, clock moves within a call", pts: vec![0, 2, 4], dts: vec![0, 1, 2], jits: vec![0, 1], bases: vec![7 * S], depth: [7, 10] },
        TCfg { name: "second boundaries", pts: vec![S - 1, S, S + 1], dts: vec![0, 1, S - 1, S], jits: vec![0], bases: vec![0, 1_999_999_999], depth: [8, 11] },
        TCfg { name: "constant PT 10s", pts: vec![10 * S], dts: vec![0, 1, 4 * S, 5 * S, 10 * S - 1, 10 * S, 10 * S + 1], jits: vec![0], bases: vec![123_456_789_123], depth: [7, 10] },
        TCfg { name: "ms and us", pts: vec![1_000, 1_000_000, 10_000_000], dts: vec![0, 999, 1_000, 999_001, 1_000_000, 10_000_000], jits: vec![0], bases: vec![S - 1], depth: [6, 8] },
        TCfg { name: "long", pts: vec![D, 25 * D, 1 << 32, i64::MAX], dts: vec![0, S, D - 1, D, D + 1, 25 * D, 1 << 31, 1 << 32, 3650 * D], jits: vec![0], bases: vec![0, 400 * D], depth: [5, 7] },
        TCfg { name: "limits", pts: vec![0, (1 << 53) + 1, i64::MAX - 1, i64::MAX], dts: vec![0, 1, (1 << 53) + 1, (1 << 53) + 2, 1 << 60], jits: vec![0], bases: vec![1], depth: [6, 8] },
    ]
}
fn timer_spaces(k: TK, names: &[&'static str], t: Tier) -> Vec<Space> {
    let mut v = vec![];
    for &name in names {
        let f = ffi::fb(name);
        let l = tlay(name);
        let calls = if thorough(t) { 2_000_000i64 } else { 150_000 };
        v.push(space(format!("{name} long runs"), 7, move |pat, cx| {
            let s = Slot::new_shared(l.size);
            s.load(&[0; ROOM]);
            let mut now = 5_000_000_000i64;
            let (mut prev, mut st) = (false, None);
            for i in 0..calls {
                // IN, PT, clock step
                let (inp, pt, dt) = match pat {
                    0 => (i % 2 == 0, 0, 1),
                    1 => (i % 4 < 2, 1, 1),
                    2 => (i % 100_000 >= 7, 40_000, 1),
                    3 => (i % 100_000 < 3, 40_000, 1),
                    4 => (true, 3600_000_000_000, 10_000_000),
                    5 => (i % 66_000 == 0, 10, 7),
                    _ => (i % 3 == 0, (i % 5) * 4, i % 11),
                };
                now += dt;
                s.set(l.inp, 1, inp as i128);
                s.set(l.pt, 8, pt as i128);
                set_mono(now);
                CLOCK.with(|c| {
                    c.jitter.set(0);
                    c.reads.set(0)
                });
                unsafe { f(s.p()) };
                let (q, et, n) = tmodel(k, st, prev, inp, pt, [now; 3]);
                let (gq, get) = (s.bytes()[l.q], s.get(l.et, 8, true) as i64);
                ensure!(gq == q as u8 && get == et, name, "{name} call {i} of long run {pat} (IN={} PT={pt} +{dt} ns): Q={gq} ET={get}, expected Q={} ET={et}", inp as u8, q as u8);
                st = n;
                prev = inp;
                if i % 4096 == 0 {
                    cx.beat();
                }
            }
            cx.transitions += calls as u64;
            cx.traces += 1;
            Ok(())
        }));
        for cfg in tcfgs() {
            let TCfg { name: cn, pts, dts, jits, bases, depth } = cfg;
            let d = depth[thorough(t) as usize];
            let nb = bases.len() as u64;
            v.push(space(format!("{name} {cn}"), nb, move |bi, cx| {
                let base = bases[bi as usize];
                let s = Slot::new(l.size);
                let mut ops = vec![];
                for &jit in &jits {
                    for &dt in &dts {
                        for &pt in &pts {
                            for inp in [false, true] {
                                ops.push(TimOp { init: false, dt, inp, pt, jit });
                            }
                        }
                    }
                }
                cx.note(&format!("{name} {cn} base {base}"));
                let limit = i64::MAX / 2;
                let ops2 = ops.clone();
                let mut outs = [0u64; 4];
                let r = Search::run(
                    vec![(TM { prev: false, st: vec![None], now: base }, [0u8; ROOM], TimOp { init: true, dt: base, inp: false, pt: 0, jit: 0 })],
                    d,
                    3_000_000,
                    cx,
                    name,
                    |m| ops2.iter().filter(|o| m.now < limit && m.now + o.dt < limit).cloned().collect(),
                    |m, b, o, _| {
                        let r = timstep(k, f, l, &s, m, b, o);
                        outs[(s.bytes()[l.q] as usize & 1) * 2 + (s.get(l.et, 8, true) != 0) as usize] += 1;
                        r
                    },
                )
                .map_err(|e| fail(e.key, format!("{name} {}", e.msg)))?;
                for (i, n) in outs.iter().enumerate() {
                    cx.count(&format!("outcome Q={} ET{}0", i / 2, if i % 2 == 1 { ">" } else { "=" }), *n);
                }
                // replay histories on one live instance: no snapshot, no restore
                let stride = (r.states.len() / if thorough(t) { 400_000 } else { 20_000 }).max(1);
                for i in (0..r.states.len()).step_by(stride) {
                    let path = r.path(i);
                    s.load(&[0; ROOM]);
                    let mut now = base;
                    for o in &path[1..] {
                        s.set(l.inp, 1, o.inp as i128);
                        s.set(l.pt, 8, o.pt as i128);
                        now += o.dt;
                        set_mono(now);
                        CLOCK.with(|c| {
                            c.jitter.set(o.jit);
                            c.reads.set(0)
                        });
                        unsafe { f(s.p()) };
                        if o.jit > 0 {
                            now += (CLOCK.with(|c| c.reads.get()).max(1) as i64 - 1) * o.jit;
                        }
                        CLOCK.with(|c| c.jitter.set(0));
                    }
                    let want = &r.states[i].1;
                    ensure!(s.bytes()[l.q] == want[l.q] && s.bytes()[l.et..l.et + 8] == want[l.et..l.et + 8], name,
                        "{name} history {path:?} gives Q/ET different from the same history with saved and restored instance memory");
                    cx.traces += 1;
                    cx.beat();
                }
                cx.sample(|| format!("{name}: {:?}", r.path(r.states.len() - 1)));
                Ok(())
            }));
        }
    }
    v
}
fn c04(t: Tier) -> Vec<Space> {
    timer_spaces(TK::Ton, &["TON", "TON_TIME", "TON_LTIME"], t)
}
fn c05(t: Tier) -> Vec<Space> {
    timer_spaces(TK::Tof, &["TOF", "TOF_TIME", "TOF_LTIME"], t)
}
fn c06(t: Tier) -> Vec<Space> {
    timer_spaces(TK::Tp, &["TP", "TP_TIME", "TP_LTIME"], t)
}

// ------------------------------------------------------------------ instance isolation
pub struct Inst {
    pub f: Fb,
    pub size: usize,
    /// small alphabet: (offset, width, value) writes, clock advance
    pub ops: Vec<Vec<(usize, usize, i64)>>,
    /// ranges of declared outputs
    pub outs: Vec<(usize, usize)>,
    inputs: Vec<(usize, usize)>,
    timer: bool,
}
pub fn inst(name: &str) -> Inst {
    let f = ffi::fb(name);
    let h = shape(name);
    let op = |v: &[i64]| -> Vec<(usize, usize, i64)> { h.ins.iter().zip(v).map(|(&(o, w), v)| (o, w, *v)).collect() };
    let pat: &[&[i64]] = match name {
        _ if name.starts_with("CTUD") => &[&[1, 0, 0, 0, 2], &[0, 1, 0, 0, 2], &[0, 0, 0, 1, 2], &[0, 0, 0, 0, 2]],
        _ if name.starts_with("CT") => &[&[1, 0, 2], &[0, 0, 2], &[0, 1, 2]],
        _ if name.starts_with('T') => &[&[1, 15], &[0, 15], &[1, 1]],
        _ if name.ends_with("TRIG") => &[&[1], &[0]],
        _ => &[&[1, 0], &[0, 0], &[0, 1]],
    };
    let ops = pat.iter().map(|p| op(p)).collect();
    Inst { f, size: h.size, ops, outs: h.outs, inputs: h.ins, timer: name.starts_with('T') }
}
/// all Boolean inputs, with PV/PT below, at and above what the small alphabet uses
fn rich(name: &str) -> Vec<Vec<(usize, usize, i64)>> {
    let h = shape(name);
    let last: &[i64] = if name.starts_with("CT") {
        &[2, 5, 0]
    } else if name.starts_with('T') {
        &[15, 1, 1_000]
    } else {
        &[]
    };
    let bools = h.ins.len() - !last.is_empty() as usize;
    let mut v = vec![];
    for x in last.iter().chain(&[0][..last.is_empty() as usize]) {
        for k in 0..1i64 << bools {
            let mut o: Vec<_> = (0..bools).map(|i| (h.ins[i].0, h.ins[i].1, k >> i & 1)).collect();
            if !last.is_empty() {
                o.push((h.ins[bools].0, h.ins[bools].1, *x));
            }
            v.push(o);
        }
    }
    v
}
/// runs one interleaving; `who[i]` says which instance makes call i; call i happens at time 10*i
fn run_inter(a: &[&Inst; 2], slots: &[Slot; 2], who: &[usize], opsq: &[Vec<usize>; 2], only: Option<usize>) -> Result<Vec<Vec<i128>>, String> {
    for k in 0..2 {
        slots[k].load(&[0; ROOM]);
    }
    let mut n = [0usize; 2];
    let mut obs = vec![];
    for (i, &w) in who.iter().enumerate() {
        let o = &a[w].ops[opsq[w][n[w]]];
        n[w] += 1;
        if only.is_some_and(|x| x != w) {
            continue;
        }
        set_mono(1_000 + 10 * i as i64);
        let other: Vec<u8> = slots[1 - w].bytes().to_vec();
        for &(off, wd, v) in o {
            slots[w].set(off, wd, v as i128)
        }
        if tri(|| unsafe { (a[w].f)(slots[w].p()) }).is_none() {
            return Err(format!("call {i} aborts"));
        }
        for &(off, wd, v) in o {
            if slots[w].get(off, wd, true) as i64 != v {
                return Err(format!("call {i} modified its input at offset {off}"));
            }
        }
        if !slots[0].intact() || !slots[1].intact() || other != slots[1 - w].bytes() {
            return Err(format!("call {i} modified memory outside its instance"));
        }
        obs.push(a[w].outs.iter().map(|&(off, wd)| slots[w].get(off, wd, true)).collect::<Vec<_>>());
    }
    Ok(obs)
}
fn c07(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let names: Vec<&'static str> = ffi::FBS.iter().map(|f| f.0).collect();
    let n = names.len();
    let per = if thorough(t) { 4usize } else { 3 };
    let nm = names.clone();
    // all pairs of blocks, all op sequences of length `per` each, all interleavings
    v.push(space(format!("interleavings {per}+{per}"), (n * n) as u64, move |i, cx| {
        let (x, y) = (nm[i as usize / n], nm[i as usize % n]);
        let (ia, ib) = (inst(x), inst(y));
        let a = [&ia, &ib];
        let slots = [Slot::new(ia.size), Slot::new(ib.size)];
        cx.note(&format!("interleaving {x} and {y}"));
        let mut whos = vec![];
        for m in 0u32..1 << (2 * per) {
            if m.count_ones() as usize == per {
                whos.push((0..2 * per).map(|k| (m >> k & 1) as usize).collect::<Vec<_>>());
            }
        }
        // op sequences (timers and triggers: the alphabet is small; counters: first 3 ops)
        let na = (ia.ops.len() as u64).pow(per as u32);
        let nb = (ib.ops.len() as u64).pow(per as u32);
        let lim = if thorough(t) { 64 } else { 16 };
        // every sequence of one instance against a spread of sequences of the other
        let sb = (nb / lim.min(nb)).max(1);
        for ca in 0..na {
            for cb in (0..nb).step_by(sb as usize) {
                let (mut j, mut k) = (ca, cb);
                let q: [Vec<usize>; 2] = [
                    (0..per).map(|_| dig(&mut j, ia.ops.len() as u64)).collect(),
                    (0..per).map(|_| dig(&mut k, ib.ops.len() as u64)).collect(),
                ];
                for who in &whos {
                    cx.transitions += 2 * per as u64;
                    cx.traces += 1;
                    let both = run_inter(&a, &slots, who, &q, None);
                    let both = match both {
                        Ok(b) => b,
                        Err(e) => bail!("C07", "{x} and {y}, interleaving {who:?}, inputs {q:?}: {e}"),
                    };
                    for w in 0..2 {
                        let alone = run_inter(&a, &slots, who, &q, Some(w)).map_err(|e| fail("C07", e))?;
                        let seen: Vec<_> = both.iter().zip(who).filter(|(_, x)| **x == w).map(|(o, _)| o.clone()).collect();
                        ensure!(alone == seen, "C07", "{} interleaved with {}: order {who:?}, inputs {q:?}: outputs {seen:?}, alone {alone:?}", if w == 0 { x } else { y }, if w == 0 { y } else { x });
                    }
                    cx.beat();
                }
            }
            cx.states += 1;
        }
        cx.sample(|| format!("{x} with {y}: {} interleavings x input sequences", whos.len()));
        Ok(())
    }));
    // one step in every reachable state of a block, after every short history of another instance: what it
    // gives must not depend on that history
    {
        let names = names.clone();
        let (cap, alen, bdepth) = if thorough(t) { (600usize, 3u32, 8) } else { (120, 2, 6) };
        v.push(space(format!("steps after histories of another instance: {cap} states, {alen} calls"), (n * n) as u64, move |i, cx| {
            let (x, y) = (names[i as usize / n], names[i as usize % n]);
            let (ia, ib) = (inst(x), inst(y));
            let (sa, sb) = (Slot::new(ia.size), Slot::new(ib.size));
            cx.note(&format!("{y} after {x}"));
            let (ra, rb) = (rich(x), rich(y));
            let call = |k: &Inst, s: &Slot, o: &[(usize, usize, i64)], now: i64| -> Result<Vec<i128>, Fail> {
                set_mono(now);
                for &(off, wd, v) in o {
                    s.set(off, wd, v as i128)
                }
                ensure!(tri(|| unsafe { (k.f)(s.p()) }).is_some(), "C07", "{x} and {y}: a call aborts");
                Ok(k.outs.iter().map(|&(off, wd)| s.get(off, wd, true)).collect())
            };
            // states of the observed instance, breadth first; a state of a timer belongs to an instant
            let mut st: Vec<(Img, i64)> = vec![([0; ROOM], 1_000)];
            let mut seen: std::collections::HashSet<(Img, i64)> = st.iter().cloned().collect();
            let (mut lo, mut d) = (0, 0);
            while d < bdepth && lo < st.len() && st.len() < cap {
                let hi = st.len();
                for j in lo..hi {
                    for o in &rb {
                        let (b, now) = st[j];
                        sb.load(&b);
                        let now = if ib.timer { now + 10 } else { now };
                        call(&ib, &sb, o, now)?;
                        let mut img = [0u8; ROOM];
                        img[..ib.size].copy_from_slice(sb.bytes());
                        for &(off, wd) in &ib.inputs {
                            img[off..off + wd].fill(0)
                        }
                        if st.len() < cap && seen.insert((img, now)) {
                            st.push((img, now));
                        }
                    }
                }
                lo = hi;
                d += 1;
            }
            // histories of the other instance: none, every sequence over its small alphabet, every single call
            let mut hist: Vec<Vec<&Vec<(usize, usize, i64)>>> = vec![vec![]];
            for len in 1..=alen {
                let k = ia.ops.len() as u64;
                for c in 0..k.pow(len) {
                    let mut j = c;
                    hist.push((0..len).map(|_| &ia.ops[dig(&mut j, k)]).collect());
                }
            }
            hist.extend(ra.iter().map(|o| vec![o]));
            for (bi, (img, now)) in st.iter().enumerate() {
                for o in &rb {
                    let mut first: Option<Vec<Vec<i128>>> = None;
                    for (hi, h) in hist.iter().enumerate() {
                        sb.load(img);
                        sa.load(&[0; ROOM]);
                        for o in h {
                            call(&ia, &sa, o, *now + 3)?;
                        }
                        let mut got = vec![call(&ib, &sb, o, *now + 10)?];
                        for (q, o) in ib.ops.iter().take(2).enumerate() {
                            got.push(call(&ib, &sb, o, *now + 20 + q as i64)?);
                        }
                        cx.transitions += 3 + h.len() as u64;
                        cx.traces += 1;
                        ensure!(sa.intact() && sb.intact(), "C07", "{x} and {y}: a call wrote before its instance");
                        match &first {
                            None => first = Some(got),
                            Some(f) => ensure!(*f == got, "C07", "{y} in state #{bi} ({:02x?}): call {o:?} gives {got:?} after history #{hi} of an instance of {x}, {f:?} without it", &img[..ib.size]),
                        }
                    }
                }
                cx.beat();
            }
            cx.states += st.len() as u64;
            Ok(())
        }));
    }
    // footprint: every reachable state of every block within depth d, instance in otherwise arbitrary memory:
    // the memory after the declared size is inaccessible, the one before is a canary; inputs stay; and the same
    // history at another address and from the bytes moved elsewhere gives the same outputs
    let depth = if thorough(t) { 7 } else { 5 };
    v.push(space(format!("footprint and relocation, histories to depth {depth}"), n as u64, move |i, cx| {
        let name = names[i as usize];
        let ia = inst(name);
        cx.note(name);
        let s1 = Slot::new(ia.size);
        let s2 = Slot::new(ia.size);
        let k = ia.ops.len() as u64;
        for len in 1..=depth {
            for c in 0..k.pow(len) {
                cx.traces += 1;
                cx.transitions += len as u64;
                let mut j = c;
                s1.load(&[0; ROOM]);
                s2.load(&[0; ROOM]);
                let mut outs = vec![];
                for st in 0..len {
                    let o = &ia.ops[dig(&mut j, k)];
                    set_mono(50 + 7 * st as i64);
                    // live instance at one address
                    for &(off, w, v) in o {
                        s1.set(off, w, v as i128)
                    }
                    ensure!(tri(|| unsafe { (ia.f)(s1.p()) }).is_some(), "C07", "{name} history #{c} (length {len}): call {st} aborts");
                    for &(off, w) in &ia.inputs {
                        if let Some(x) = o.iter().find(|x| x.0 == off) {
                            ensure!(s1.get(off, w, true) as i64 == x.2, "C07", "{name} history #{c}: call {st} modified its input at offset {off}");
                        }
                    }
                    ensure!(s1.intact(), "C07", "{name} history #{c}: call {st} wrote before its instance");
                    let o1: Vec<_> = ia.outs.iter().map(|&(off, w)| s1.get(off, w, true)).collect();
                    // same call with the instance moved to another address before every call
                    let mut img = [0u8; ROOM];
                    img[..ia.size].copy_from_slice(s2.bytes());
                    let s3 = Slot::new_shared(ia.size);
                    let (from, to) = if st % 2 == 0 { (&s2, &s3) } else { (&s3, &s2) };
                    img[..ia.size].copy_from_slice(from.bytes());
                    if st == 0 {
                        img = [0; ROOM];
                    }
                    to.load(&img);
                    unsafe { std::ptr::write_bytes(from.p(), 0x5A, ia.size) };
                    for &(off, w, v) in o {
                        to.set(off, w, v as i128)
                    }
                    ensure!(tri(|| unsafe { (ia.f)(to.p()) }).is_some(), "C07", "{name} history #{c} with moved instance: call {st} aborts");
                    let o2: Vec<_> = ia.outs.iter().map(|&(off, w)| to.get(off, w, true)).collect();
                    ensure!(o1 == o2, "C07", "{name} history #{c}: call {st} gives {o2:?} on an instance moved in memory, {o1:?} on one that stays");
                    outs.push(o1);
                }
                cx.beat();
            }
        }
        cx.states += 1;
        Ok(())
    }));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", level: "model_checking", exhaustive: true, spaces: c01,
            rule: "state = (reference counter, real instance bytes); transitions = one real call for every combination of the Boolean inputs and every PV of the boundary alphabet, from every reached state to the depth bound, starting from the zero-initialised instance and from CV at and around the limits; plus one call from every CV (all 65536 for 16-bit, all boundary values otherwise) with every edge memory",
            assumptions: &["CV is the declared output field of the instance; setting it gives the non-initial start states"] },
        Prop { id: "C02", level: "model_checking", exhaustive: true, spaces: c02,
            rule: "product of the reference edge detector and the real instance bytes to its fixpoint, plus all CLK histories of the bounded length on a live instance", assumptions: &[] },
        Prop { id: "C03", level: "model_checking", exhaustive: true, spaces: c03,
            rule: "product of the reference latch and the real instance bytes to its fixpoint, plus all input histories of the bounded length on a live instance", assumptions: &[] },
        Prop { id: "C04", level: "model_checking", exhaustive: true, spaces: c04, rule: TRULE, assumptions: TASS },
        Prop { id: "C05", level: "model_checking", exhaustive: true, spaces: c05, rule: TRULE, assumptions: TASS },
        Prop { id: "C06", level: "model_checking", exhaustive: true, spaces: c06, rule: TRULE, assumptions: TASS },
        Prop { id: "C07", level: "model_checking", exhaustive: true, spaces: c07,
            rule: "all ordered pairs of the 31 exported function blocks, all input sequences of the bounded length over the block's small alphabet, all interleavings of the two instances, compared with each instance alone; plus all single-instance histories with the instance moved in memory between calls; states counts input-sequence classes, transitions counts real calls",
            assumptions: &["instance size as declared in ST (timers 64 bytes incl. the reserved buffer)"] },
    ]
}
const TRULE: &str = "state = (reference timer incl. clock, real instance bytes); transitions = one real call for every IN, PT and clock step of the configuration's alphabet (PT +- 1ns, second boundaries, days, i64 limits; also a clock that advances between two reads of one call), breadth first to the depth bound from the zero-initialised instance; traces = histories replayed on a live instance without snapshots";
const TASS: &[&str] = &["clock_gettime is the only source of time (shadowed by the harness)", "total run time below 2^62 ns"];
