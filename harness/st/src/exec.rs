//! Executor.
use crate::lower::*;
use crate::parse::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// the program does something that has no defined outcome
    Bad(String),
    /// something this executor does not model
    Unsupported(String),
}
type R<T> = Result<T, Fault>;
fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Fault::Bad(s.into()))
}

pub unsafe fn load(p: *const u8, e: El) -> u64 {
    let v = match e.size() {
        1 => *p as u64,
        2 => (p as *const u16).read_unaligned() as u64,
        4 => (p as *const u32).read_unaligned() as u64,
        _ => (p as *const u64).read_unaligned(),
    };
    norm(e, v)
}
pub unsafe fn store(p: *mut u8, e: El, v: u64) {
    match e.size() {
        1 => *p = v as u8,
        2 => (p as *mut u16).write_unaligned(v as u16),
        4 => (p as *mut u32).write_unaligned(v as u32),
        _ => (p as *mut u64).write_unaligned(v),
    }
}
fn f(e: El, v: u64) -> f64 {
    if e == El::Real {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v)
    }
}
pub fn convert(v: u64, a: El, b: El) -> u64 {
    match (a.float(), b.float()) {
        (false, false) => norm(b, v),
        (true, true) => match (a, b) {
            (El::Real, El::Lreal) => (f32::from_bits(v as u32) as f64).to_bits(),
            (El::Lreal, El::Real) => (f64::from_bits(v) as f32).to_bits() as u64,
            _ => v,
        },
        (false, true) => match (a.signed(), b) {
            (true, El::Real) => (v as i64 as f32).to_bits() as u64,
            (false, El::Real) => (v as f32).to_bits() as u64,
            (true, _) => (v as i64 as f64).to_bits(),
            (false, _) => (v as f64).to_bits(),
        },
        (true, false) => {
            let x = f(a, v);
            norm(b, if b.signed() { x as i64 as u64 } else if x < 0.0 { x as i64 as u64 } else { x as u64 })
        }
    }
}

const ARENA: usize = 1 << 20;
const FILL: u8 = 0xA5;
enum Flow {
    Next,
    Return,
    Exit,
    Continue,
}
#[derive(Clone, Copy)]
struct Fr {
    base: *mut u8,
    inst: *mut u8,
    pou: usize,
}
pub struct Vm<'a> {
    pub p: &'a Program,
    mem: Box<[u64]>,
    sp: usize,
    frames: Vec<Fr>,
    /// live scratch texts: (address, size) followed by a red zone
    temps: Vec<(usize, usize)>,
    /// memory of the caller that pointers may refer to
    pub regions: Vec<(usize, usize)>,
    pub fuel: u64,
}
impl<'a> Vm<'a> {
    pub fn new(p: &'a Program) -> Vm<'a> {
        Vm { p, mem: vec![0u64; ARENA / 8].into_boxed_slice(), sp: 0, frames: vec![], temps: vec![], regions: vec![], fuel: 0 }
    }
    fn alloc(&mut self, n: usize) -> R<*mut u8> {
        let n = n.next_multiple_of(16);
        if self.sp + n > ARENA {
            return Err(Fault::Unsupported("stack".into()));
        }
        let p = unsafe { (self.mem.as_mut_ptr() as *mut u8).add(self.sp) };
        self.sp += n;
        Ok(p)
    }
    fn text_temp(&mut self, bytes: usize) -> R<*mut u8> {
        let n = bytes.next_multiple_of(16);
        let p = self.alloc(n + RED as usize)?;
        unsafe {
            std::ptr::write_bytes(p, 0, 16);
            std::ptr::write_bytes(p.add(n), FILL, RED as usize);
        }
        self.temps.push((p as usize, n));
        Ok(p)
    }
    fn drop_temps(&mut self, mark: usize) -> R<()> {
        while self.temps.len() > mark {
            let (p, n) = self.temps.pop().unwrap();
            let s = unsafe { std::slice::from_raw_parts((p + n) as *const u8, RED as usize) };
            if s.iter().any(|b| *b != FILL) {
                return bad("a call wrote past the end of its result buffer");
            }
        }
        Ok(())
    }
    /// the bytes from `p` to the end of the variable it points into
    fn room(&mut self, p: usize) -> R<usize> {
        for (a, n) in self.regions.iter().chain(&self.temps) {
            if p >= *a && p < a + n {
                return Ok(a + n - p);
            }
        }
        for fr in self.frames.iter().rev() {
            let u = &self.p.pous[fr.pou];
            for (b, z, in_frame) in [(fr.base as usize, u.frame, true), (fr.inst as usize, u.inst, false)] {
                if b == 0 || p < b || p >= b + z as usize {
                    continue;
                }
                for v in &u.vars {
                    if v.frame != in_frame {
                        continue;
                    }
                    let s = if v.by_ref { 8 } else { size_of(self.p, &v.ty) };
                    let a = b + v.off as usize;
                    if p >= a && p < a + s as usize {
                        return Ok(a + s as usize - p);
                    }
                }
                return bad("a pointer refers to no variable");
            }
        }
        for g in self.p.globals.values() {
            if p >= g.addr && p < g.addr + g.size as usize {
                return Ok(g.addr + g.size as usize - p);
            }
        }
        for (a, n) in LITERALS.lock().unwrap().iter() {
            if p >= *a && p < a + n {
                return Ok(a + n - p);
            }
        }
        bad("a pointer refers to no variable")
    }
    fn lv(&mut self, fr: Fr, l: &Lv) -> R<*mut u8> {
        unsafe {
            Ok(match l {
                Lv::Fr(o) => fr.base.add(*o as usize),
                Lv::FrP(o) => *(fr.base.add(*o as usize) as *const *mut u8),
                Lv::In(o) => fr.inst.add(*o as usize),
                Lv::InP(o) => *(fr.inst.add(*o as usize) as *const *mut u8),
                Lv::Abs(a) => *a as *mut u8,
                Lv::Off(b, o) => self.lv(fr, b)?.add(*o as usize),
                Lv::Deref(x, n, unit) => {
                    let p = self.ex(fr, x)? as usize;
                    let room = self.room(p)?;
                    if *unit == 0 {
                        if (*n as usize) > room {
                            return bad(format!("access to {n} bytes through a pointer to a variable with {room}"));
                        }
                    } else {
                        // the text must end inside the variable
                        let u = *unit as usize;
                        let z = (0..room / u).any(|i| match u {
                            1 => *((p + i) as *const u8) == 0,
                            _ => ((p + 2 * i) as *const u16).read_unaligned() == 0,
                        });
                        if !z {
                            return bad(format!("text read through a pointer to a variable of {room} bytes has no end inside the variable"));
                        }
                    }
                    p as *mut u8
                }
                Lv::Index(b, x, lo, n, es) => {
                    let i = self.ex(fr, x)? as i64 - lo;
                    if i < 0 || i >= *n {
                        return bad("array index out of range");
                    }
                    self.lv(fr, b)?.add(i as usize * *es as usize)
                }
            })
        }
    }
    fn sx(&mut self, fr: Fr, s: &SX) -> R<(*const u8, u32)> {
        Ok(match s {
            SX::Lit(p, n) => (*p as *const u8, *n),
            SX::Lv(l, n) => (self.lv(fr, l)? as *const u8, *n),
            SX::Call(c, n) => {
                let p = self.call(fr, c)?;
                (p as *const u8, *n)
            }
            SX::Pick(k, v) => {
                let k = self.ex(fr, k)? as usize;
                match v.get(k) {
                    Some(s) => self.sx(fr, s)?,
                    None => return bad("selector out of range"),
                }
            }
        })
    }
    fn ex(&mut self, fr: Fr, x: &X) -> R<u64> {
        Ok(match x {
            X::I(v) => *v,
            X::Ld(l, e) => {
                let p = self.lv(fr, l)?;
                if p.is_null() {
                    return bad("null reference");
                }
                unsafe { load(p, *e) }
            }
            X::LdP(l) => {
                let p = self.lv(fr, l)?;
                unsafe { (p as *const u64).read_unaligned() }
            }
            X::Ad(l) => self.lv(fr, l)? as u64,
            X::Cv(x, a, b) => convert(self.ex(fr, x)?, *a, *b),
            X::Bin(o, e, a, b) => {
                let (a, b) = (self.ex(fr, a)?, self.ex(fr, b)?);
                bin(*o, *e, a, b)?
            }
            X::Neg(e, x) => {
                let v = self.ex(fr, x)?;
                match e {
                    El::Real => (-f32::from_bits(v as u32)).to_bits() as u64,
                    El::Lreal => (-f64::from_bits(v)).to_bits(),
                    e => norm(*e, (v as i64).wrapping_neg() as u64),
                }
            }
            X::Not(e, x) => {
                let v = self.ex(fr, x)?;
                if *e == El::Bool {
                    (v == 0) as u64
                } else {
                    norm(*e, !v)
                }
            }
            X::Bit(x, s, e) => {
                let v = self.ex(fr, x)? >> s;
                if *e == El::Bool {
                    v & 1
                } else {
                    norm(*e, v)
                }
            }
            X::Call(c) => self.call(fr, c)?,
            X::S(s) => self.sx(fr, s)?.0 as u64,
            X::Pick(k, v) => {
                let k = self.ex(fr, k)? as usize;
                match v.get(k) {
                    Some(x) => self.ex(fr, x)?,
                    None => return bad("selector out of range"),
                }
            }
        })
    }
    unsafe fn copy_text(dst: *mut u8, cap: u32, src: *const u8, scap: u32, wide: bool) {
        let n = cap.min(scap) as usize;
        if wide {
            let (d, s) = (dst as *mut u16, src as *const u16);
            let mut i = 0;
            while i < n && s.add(i).read_unaligned() != 0 {
                d.add(i).write_unaligned(s.add(i).read_unaligned());
                i += 1;
            }
            d.add(i).write_unaligned(0);
        } else {
            let mut i = 0;
            while i < n && *src.add(i) != 0 {
                *dst.add(i) = *src.add(i);
                i += 1;
            }
            *dst.add(i) = 0;
        }
    }
    fn call(&mut self, fr: Fr, c: &Call) -> R<u64> {
        let p = self.p;
        let u = &p.pous[c.pou];
        let out = match u.ret {
            Ty::Str(n) => self.text_temp(n as usize + 1)?,
            Ty::Wstr(n) => self.text_temp(2 * (n as usize + 1))?,
            _ => std::ptr::null_mut(),
        };
        let inst = match &c.inst {
            Some(l) => self.lv(fr, l)?,
            None => std::ptr::null_mut(),
        };
        // evaluate the arguments
        let mut vals: [u64; 32] = [0; 32];
        let mut counts: [u32; 32] = [u32::MAX; 32];
        let mut given: u32 = 0;
        if c.args.len() > 32 {
            return Err(Fault::Unsupported("arguments".into()));
        }
        for (i, a) in c.args.iter().enumerate() {
            vals[i] = match a {
                A::Val(x, _) | A::Ptr(x) => self.ex(fr, x)?,
                A::Str(s) => self.sx(fr, s)?.0 as u64,
                A::Many(xs, el) => {
                    let es = el.map_or(8, |e| e.size()) as usize;
                    let b = self.alloc(es * xs.len() + 16)?;
                    for (k, x) in xs.iter().enumerate() {
                        let v = self.ex(fr, x)?;
                        unsafe { store(b.add(k * es), el.unwrap_or(El::Lword), v) }
                    }
                    counts[i] = xs.len() as u32;
                    b as u64
                }
                A::Scratch(n) => {
                    let b = self.alloc(*n as usize)?;
                    unsafe { std::ptr::write_bytes(b, 0, *n as usize) };
                    b as u64
                }
                A::Default => continue,
            };
            given |= 1 << i;
        }
        let r = self.invoke(c.pou, &vals[..c.args.len()], &counts[..c.args.len()], given, inst, out)?;
        for (vi, l, t) in &c.outs {
            let v = &u.vars[*vi];
            let d = self.lv(fr, l)?;
            let s = unsafe { inst.add(v.off as usize) };
            match (&v.ty, t) {
                (Ty::El(a), Ty::El(b)) => unsafe { store(d, *b, convert(load(s, *a), *a, *b)) },
                _ => return Err(Fault::Unsupported("output".into())),
            }
        }
        Ok(if out.is_null() { r } else { out as u64 })
    }
    /// Calls a POU. `vals`: the arguments in parameter order (numbers, or addresses for texts and references).
    fn invoke(&mut self, i: usize, vals: &[u64], counts: &[u32], given: u32, inst: *mut u8, out: *mut u8) -> R<u64> {
        let p = self.p;
        let u = &p.pous[i];
        if let Some(e) = &u.err {
            return Err(Fault::Unsupported(e.clone()));
        }
        if u.generic {
            return Err(Fault::Unsupported(format!("{} is generic", u.name)));
        }
        if self.frames.len() > 64 {
            return bad("recursion");
        }
        if u.kind == Kind::Function {
            if u.external {
                return self.external(u, vals, counts, given, out);
            }
        } else {
            for (k, v) in vals.iter().enumerate() {
                let w = &u.vars[u.params[k]];
                if given >> k & 1 == 0 {
                    continue;
                }
                let d = unsafe { inst.add(w.off as usize) };
                match (&w.ty, w.by_ref) {
                    (Ty::El(e), false) => unsafe { store(d, *e, *v) },
                    (Ty::Str(n), false) => unsafe { Self::copy_text(d, *n, *v as *const u8, *n, false) },
                    (Ty::Wstr(n), false) => unsafe { Self::copy_text(d, *n, *v as *const u8, *n, true) },
                    (_, true) => unsafe { (d as *mut u64).write_unaligned(*v) },
                    _ => return Err(Fault::Unsupported("input".into())),
                }
            }
            if u.external {
                if u.addr == 0 {
                    return bad(format!("{} is declared external but the library exports no such symbol", u.name));
                }
                let g: extern "C-unwind" fn(*mut u8) = unsafe { std::mem::transmute(u.addr) };
                g(inst);
                return Ok(0);
            }
        }
        let body = match &u.body {
            Ok(b) => b,
            Err(e) => return Err(Fault::Unsupported(format!("{}: {}: {e}", u.file, u.name))),
        };
        let sp = self.sp;
        let tm = self.temps.len();
        let base = self.alloc(u.frame as usize + 16)?;
        unsafe {
            std::ptr::write_bytes(base, 0, u.frame as usize);
            for r in &u.reds {
                std::ptr::write_bytes(base.add(*r as usize), FILL, RED as usize);
            }
            for (fr, ini) in &u.inits {
                if !fr {
                    continue;
                }
                match ini {
                    Init::Num(o, e, v) => store(base.add(*o as usize), *e, *v),
                    Init::Str(o, s, n) => std::ptr::copy_nonoverlapping(*s as *const u8, base.add(*o as usize), *n as usize),
                }
            }
            if u.kind == Kind::Function {
                for (k, v) in vals.iter().enumerate() {
                    let w = &u.vars[u.params[k]];
                    let d = base.add(w.off as usize);
                    if given >> k & 1 == 0 {
                        continue;
                    }
                    match (&w.ty, w.by_ref) {
                        (_, true) => (d as *mut u64).write_unaligned(*v),
                        (Ty::El(e), _) => store(d, *e, *v),
                        (Ty::Ptr(_), _) => (d as *mut u64).write_unaligned(*v),
                        (Ty::Str(n), _) => Self::copy_text(d, *n, *v as *const u8, *n, false),
                        (Ty::Wstr(n), _) => Self::copy_text(d, *n, *v as *const u8, *n, true),
                        _ => return Err(Fault::Unsupported("parameter".into())),
                    }
                }
            }
        }
        let ret = u.vars.iter().find(|v| v.ret);
        if let Some(v) = ret {
            if v.by_ref {
                unsafe { (base.add(v.off as usize) as *mut u64).write_unaligned(out as u64) }
            }
        }
        let fr = Fr { base, inst, pou: i };
        self.frames.push(fr);
        self.block(fr, body)?;
        self.frames.pop();
        self.drop_temps(tm)?;
        for r in &u.reds {
            let z = unsafe { std::slice::from_raw_parts(base.add(*r as usize), RED as usize) };
            if z.iter().any(|b| *b != FILL) {
                let v = u.vars.iter().filter(|v| v.frame && v.off < *r).max_by_key(|v| v.off).map_or("?", |v| &v.name);
                return bad(format!("{}: write past the end of {v}", u.name));
            }
        }
        let r = match ret {
            Some(v) if !v.by_ref => match v.ty {
                Ty::El(e) => unsafe { load(base.add(v.off as usize), e) },
                _ => unsafe { (base.add(v.off as usize) as *const u64).read_unaligned() },
            },
            _ => 0,
        };
        self.sp = sp;
        Ok(r)
    }
    fn external(&mut self, u: &Pou, vals: &[u64], counts: &[u32], given: u32, out: *mut u8) -> R<u64> {
        if u.addr == 0 {
            return bad(format!("{} is declared external but the library exports no such symbol", u.name));
        }
        let mut g = [0u64; 6];
        let mut x = [0f64; 8];
        let mut st = [0u64; 6];
        let (mut ng, mut nx, mut ns) = (0, 0, 0);
        let mut int = |v: u64| -> R<()> {
            if ng < 6 {
                g[ng] = v;
                ng += 1;
            } else if ns < 6 {
                st[ns] = v;
                ns += 1;
            } else {
                return Err(Fault::Unsupported("arguments".into()));
            }
            Ok(())
        };
        if !out.is_null() {
            int(out as u64)?;
        }
        for (k, v) in vals.iter().enumerate() {
            let w = &u.vars[u.params[k]];
            if given >> k & 1 == 0 {
                return Err(Fault::Unsupported(format!("{} without {}", u.name, w.name)));
            }
            if counts[k] != u32::MAX {
                int(counts[k] as u64)?;
                int(*v)?;
                continue;
            }
            match (&w.ty, w.by_ref) {
                (Ty::El(e), false) if e.float() => {
                    if nx == 8 {
                        return Err(Fault::Unsupported("arguments".into()));
                    }
                    x[nx] = f64::from_bits(*v);
                    nx += 1;
                }
                _ => int(*v)?,
            }
        }
        type F<T> = extern "C-unwind" fn(u64, u64, u64, u64, u64, u64, f64, f64, f64, f64, f64, f64, f64, f64, u64, u64, u64, u64, u64, u64) -> T;
        macro_rules! go {
            ($t:ty) => {{
                let h: F<$t> = unsafe { std::mem::transmute(u.addr) };
                h(
                    g[0], g[1], g[2], g[3], g[4], g[5], x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], st[0], st[1], st[2], st[3], st[4], st[5],
                )
            }};
        }
        Ok(match &u.ret {
            Ty::El(e) if e.float() => {
                let r = go!(f64).to_bits();
                if *e == El::Real {
                    r as u32 as u64
                } else {
                    r
                }
            }
            Ty::El(e) => norm(*e, go!(u64)),
            _ => go!(u64),
        })
    }
    fn block(&mut self, fr: Fr, b: &[S]) -> R<Flow> {
        for s in b {
            if self.fuel == 0 {
                return bad("the program does not end");
            }
            self.fuel -= 1;
            let (sp, tm) = (self.sp, self.temps.len());
            let f = self.stmt(fr, s)?;
            self.drop_temps(tm)?;
            self.sp = sp;
            match f {
                Flow::Next => {}
                f => return Ok(f),
            }
        }
        Ok(Flow::Next)
    }
    fn stmt(&mut self, fr: Fr, s: &S) -> R<Flow> {
        match s {
            S::Num(l, x, e) => {
                let v = self.ex(fr, x)?;
                let d = self.lv(fr, l)?;
                if d.is_null() {
                    return bad("null reference");
                }
                unsafe { store(d, *e, v) }
            }
            S::Ptr(l, x) => {
                let v = self.ex(fr, x)?;
                let d = self.lv(fr, l)?;
                unsafe { (d as *mut u64).write_unaligned(v) }
            }
            S::Str(l, n, x, w) => {
                let (p, sc) = self.sx(fr, x)?;
                let d = self.lv(fr, l)?;
                if d.is_null() || p.is_null() {
                    return bad("null reference");
                }
                unsafe { Self::copy_text(d, *n, p, sc, *w) }
            }
            S::Do(x) => {
                self.ex(fr, x)?;
            }
            S::DoS(x) => {
                self.sx(fr, x)?;
            }
            S::If(b, e) => {
                for (c, b) in b {
                    if self.ex(fr, c)? != 0 {
                        return self.block(fr, b);
                    }
                }
                return self.block(fr, e);
            }
            S::Case(x, _, b, e) => {
                let v = self.ex(fr, x)? as i64;
                for (l, b) in b {
                    if l.iter().any(|(a, z)| (*a..=*z).contains(&v)) {
                        return self.block(fr, b);
                    }
                }
                return self.block(fr, e);
            }
            S::For(l, t, a, b, st, body) => {
                let v = self.ex(fr, a)?;
                let d = self.lv(fr, l)?;
                unsafe { store(d, *t, v) }
                loop {
                    if self.fuel == 0 {
                        return bad("the program does not end");
                    }
                    self.fuel -= 1;
                    let (cur, end, step) = (unsafe { load(d, *t) } as i64, self.ex(fr, b)? as i64, self.ex(fr, st)? as i64);
                    if step > 0 && cur > end || step < 0 && cur < end {
                        break;
                    }
                    match self.block(fr, body)? {
                        Flow::Exit => break,
                        Flow::Return => return Ok(Flow::Return),
                        _ => {}
                    }
                    let cur = unsafe { load(d, *t) } as i64;
                    unsafe { store(d, *t, norm(*t, cur.wrapping_add(step) as u64)) }
                }
            }
            S::While(c, b) => {
                while self.ex(fr, c)? != 0 {
                    if self.fuel == 0 {
                        return bad("the program does not end");
                    }
                    self.fuel -= 1;
                    match self.block(fr, b)? {
                        Flow::Exit => break,
                        Flow::Return => return Ok(Flow::Return),
                        _ => {}
                    }
                }
            }
            S::Repeat(b, c) => loop {
                if self.fuel == 0 {
                    return bad("the program does not end");
                }
                self.fuel -= 1;
                match self.block(fr, b)? {
                    Flow::Exit => break,
                    Flow::Return => return Ok(Flow::Return),
                    _ => {}
                }
                if self.ex(fr, c)? != 0 {
                    break;
                }
            },
            S::Return => return Ok(Flow::Return),
            S::Exit => return Ok(Flow::Exit),
            S::Continue => return Ok(Flow::Continue),
        }
        Ok(Flow::Next)
    }
    /// After a call that did not return: has it written past the end of a text variable?
    pub fn overrun(&self) -> bool {
        let dirty = |a: usize| unsafe { std::slice::from_raw_parts(a as *const u8, RED as usize) }.iter().any(|b| *b != FILL);
        self.temps.iter().any(|(p, n)| dirty(p + n)) || self.frames.iter().any(|f| !f.base.is_null() && self.p.pous[f.pou].reds.iter().any(|r| dirty(f.base as usize + *r as usize)))
    }
    fn reset(&mut self) {
        self.sp = 0;
        self.frames.clear();
        self.temps.clear();
        self.fuel = 1 << 22;
    }
    /// Runs a function. Arguments: numbers as bits, addresses for texts and references; `out`: text result.
    pub fn run(&mut self, pou: usize, args: &[u64], out: *mut u8) -> R<u64> {
        self.reset();
        let counts = [u32::MAX; 32];
        if !out.is_null() {
            unsafe { (out as *mut u16).write_unaligned(0) }
        }
        self.invoke(pou, args, &counts[..args.len()], ((1u64 << args.len()) - 1) as u32, std::ptr::null_mut(), out)
    }
    /// Runs one cycle of a program or function block on its instance memory.
    pub fn cycle(&mut self, pou: usize, inst: *mut u8) -> R<()> {
        self.reset();
        self.invoke(pou, &[], &[], 0, inst, std::ptr::null_mut()).map(|_| ())
    }
    /// Gives the instance memory of a program or function block its initial values.
    pub fn init(&self, pou: usize, inst: *mut u8) {
        let u = &self.p.pous[pou];
        unsafe {
            std::ptr::write_bytes(inst, 0, u.inst as usize);
            for (fr, ini) in &u.inits {
                if *fr {
                    continue;
                }
                match ini {
                    Init::Num(o, e, v) => store(inst.add(*o as usize), *e, *v),
                    Init::Str(o, s, n) => std::ptr::copy_nonoverlapping(*s as *const u8, inst.add(*o as usize), *n as usize),
                }
            }
            for v in &u.vars {
                if let (Ty::Fb(n), false) = (&v.ty, v.frame) {
                    self.init(self.p.index[n], inst.add(v.off as usize));
                }
            }
        }
    }
}
fn size_of(p: &Program, t: &Ty) -> u32 {
    match t {
        Ty::El(e) => e.size(),
        Ty::Str(n) => n + 1,
        Ty::Wstr(n) => 2 * (n + 1),
        Ty::Arr(t, a, b) => (b - a + 1) as u32 * size_of(p, t),
        Ty::Fb(n) => p.index.get(n).map_or(0, |i| p.pous[*i].inst),
        Ty::Var(..) | Ty::Void | Ty::Gen(_) => 0,
        Ty::Ptr(_) => 8,
    }
}
fn bin(o: Op, e: El, a: u64, b: u64) -> R<u64> {
    use Op::*;
    macro_rules! fl {
        ($t:ty, $u:ty) => {{
            let (x, y) = (<$t>::from_bits(a as $u), <$t>::from_bits(b as $u));
            return Ok(match o {
                Add => (x + y).to_bits() as u64,
                Sub => (x - y).to_bits() as u64,
                Mul => (x * y).to_bits() as u64,
                Div => (x / y).to_bits() as u64,
                Mod => (x % y).to_bits() as u64,
                Eq => (x == y) as u64,
                Ne => (x != y) as u64,
                Lt => (x < y) as u64,
                Le => (x <= y) as u64,
                Gt => (x > y) as u64,
                Ge => (x >= y) as u64,
                _ => return Err(Fault::Unsupported("bit operation on a real".into())),
            });
        }};
    }
    match e {
        El::Real => fl!(f32, u32),
        El::Lreal => fl!(f64, u64),
        _ => {}
    }
    let s = e.signed();
    let (i, j) = (a as i64, b as i64);
    Ok(match o {
        Add => norm(e, a.wrapping_add(b)),
        Sub => norm(e, a.wrapping_sub(b)),
        Mul => norm(e, a.wrapping_mul(b)),
        Div | Mod if b == 0 => return bad("division by zero"),
        Div if s => norm(e, i.wrapping_div(j) as u64),
        Mod if s => norm(e, i.wrapping_rem(j) as u64),
        Div => norm(e, a / b),
        Mod => norm(e, a % b),
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Eq => (a == b) as u64,
        Ne => (a != b) as u64,
        Lt => (if s { i < j } else { a < b }) as u64,
        Le => (if s { i <= j } else { a <= b }) as u64,
        Gt => (if s { i > j } else { a > b }) as u64,
        Ge => (if s { i >= j } else { a >= b }) as u64,
    })
}
