//! Declarations, layout, overload resolution and typing.
use crate::parse::*;
use std::collections::HashMap;

pub type SymFn<'a> = dyn Fn(&str) -> usize + 'a;
type R<T> = Result<T, String>;
pub const RED: u32 = 256;

#[derive(Debug, Clone)]
pub enum Lv {
    Fr(u32),
    FrP(u32),
    In(u32),
    InP(u32),
    Abs(usize),
    Off(Box<Lv>, u32),
    /// explicit `^`: address expression, bytes that must be readable, unit (0: not text)
    Deref(Box<X>, u32, u32),
    Index(Box<Lv>, Box<X>, i64, i64, u32),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    And,
    Or,
    Xor,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}
#[derive(Debug, Clone)]
pub enum X {
    I(u64),
    Ld(Lv, El),
    LdP(Lv),
    Ad(Lv),
    Cv(Box<X>, El, El),
    Bin(Op, El, Box<X>, Box<X>),
    Neg(El, Box<X>),
    Not(El, Box<X>),
    Bit(Box<X>, u32, El),
    Call(Box<Call>),
    /// pointer to the text
    S(Box<SX>),
    Pick(Box<X>, Vec<X>),
}
#[derive(Debug, Clone)]
pub enum SX {
    Lit(usize, u32),
    Lv(Lv, u32),
    Call(Box<Call>, u32),
    Pick(Box<X>, Vec<SX>),
}
#[derive(Debug, Clone)]
pub enum A {
    Val(X, El),
    Ptr(X),
    /// pointer to text passed by value: (text, wide)
    Str(SX),
    /// count and array: elements by value (type) or pointers
    Many(Vec<X>, Option<El>),
    /// a scratch variable of this type
    Scratch(u32),
    Default,
}
#[derive(Debug, Clone)]
pub struct Call {
    pub pou: usize,
    pub args: Vec<A>,
    pub inst: Option<Lv>,
    /// outputs of a function block call: (index of the variable, target)
    pub outs: Vec<(usize, Lv, Ty)>,
}
#[derive(Debug, Clone)]
pub enum S {
    Num(Lv, X, El),
    Ptr(Lv, X),
    /// target, capacity, source, wide
    Str(Lv, u32, SX, bool),
    Do(X),
    DoS(SX),
    If(Vec<(X, Vec<S>)>, Vec<S>),
    Case(X, El, Vec<(Vec<(i64, i64)>, Vec<S>)>, Vec<S>),
    For(Lv, El, X, X, X, Vec<S>),
    While(X, Vec<S>),
    Repeat(Vec<S>, X),
    Return,
    Exit,
    Continue,
}
#[derive(Debug, Clone)]
pub struct Var {
    pub name: String,
    pub sec: Sec,
    pub ty: Ty,
    pub off: u32,
    pub by_ref: bool,
    /// lives in the call frame (otherwise in the instance)
    pub frame: bool,
    pub ret: bool,
}
#[derive(Debug, Clone)]
pub enum Init {
    Num(u32, El, u64),
    Str(u32, usize, u32),
}
#[derive(Debug, Clone)]
pub struct Pou {
    pub name: String,
    pub kind: Kind,
    pub external: bool,
    pub generic: bool,
    pub ret: Ty,
    pub vars: Vec<Var>,
    pub params: Vec<usize>,
    pub frame: u32,
    pub inst: u32,
    pub align: u32,
    pub reds: Vec<u32>,
    pub inits: Vec<(bool, Init)>,
    pub body: R<Vec<S>>,
    pub addr: usize,
    pub file: String,
    pub err: Option<String>,
}
impl Pou {
    pub fn var(&self, n: &str) -> Option<&Var> {
        let n = n.to_ascii_uppercase();
        self.vars.iter().find(|v| v.name == n)
    }
}
pub struct Global {
    pub ty: Ty,
    pub addr: usize,
    pub size: u32,
}
#[derive(Default)]
pub struct Program {
    pub pous: Vec<Pou>,
    pub index: HashMap<String, usize>,
    pub globals: HashMap<String, Global>,
    pub consts: HashMap<String, i128>,
    asts: HashMap<String, PouAst>,
}

#[derive(Clone, Copy, Debug)]
enum Lit {
    I(i128),
    R(f64),
}
#[derive(Clone, Debug)]
enum V {
    N(X, El, Option<Lit>),
    S(SX, bool, u32),
    P(X),
}

fn up(s: &str) -> String {
    s.to_ascii_uppercase()
}
pub fn norm(e: El, v: u64) -> u64 {
    match (e.size(), e.signed()) {
        (1, false) => v as u8 as u64,
        (2, false) => v as u16 as u64,
        (4, false) => v as u32 as u64,
        (1, true) => v as i8 as i64 as u64,
        (2, true) => v as i16 as i64 as u64,
        (4, true) => v as i32 as i64 as u64,
        _ => v,
    }
}
fn lit_bits(l: Lit, e: El) -> u64 {
    match (l, e) {
        (Lit::I(v), El::Real) => (v as f32).to_bits() as u64,
        (Lit::I(v), El::Lreal) => (v as f64).to_bits(),
        (Lit::R(v), El::Real) => (v as f32).to_bits() as u64,
        (Lit::R(v), El::Lreal) => v.to_bits(),
        (Lit::I(v), e) => norm(e, v as u64),
        (Lit::R(v), e) => norm(e, v as i64 as u64),
    }
}
fn cast(v: (X, El, Option<Lit>), to: El) -> X {
    match v {
        (_, _, Some(l)) => X::I(lit_bits(l, to)),
        (x, f, _) if f == to => x,
        (x, f, _) => X::Cv(Box::new(x), f, to),
    }
}
/// the type both operands are converted to (without the promotion to DINT)
fn bigger(a: El, b: El) -> El {
    if a == b {
        return a;
    }
    match (a.float(), b.float()) {
        (true, true) => El::Lreal,
        (true, false) | (false, true) => {
            if a.size() > 4 || b.size() > 4 {
                El::Lreal
            } else {
                El::Real
            }
        }
        _ => {
            let rank = |e: El| e.size() * 16 + if e.signed() { 1 } else { 0 };
            if rank(b) > rank(a) {
                b
            } else {
                a
            }
        }
    }
}
/// text literals: (address, bytes)
pub static LITERALS: std::sync::Mutex<Vec<(usize, usize)>> = std::sync::Mutex::new(vec![]);
fn intern(s: &str, wide: bool) -> (usize, u32) {
    let (p, n, b) = if wide {
        let mut v: Vec<u16> = s.encode_utf16().collect();
        let n = v.len();
        v.push(0);
        (Box::leak(v.into_boxed_slice()).as_ptr() as usize, n, 2 * n + 2)
    } else {
        let mut v = s.as_bytes().to_vec();
        let n = v.len();
        v.push(0);
        (Box::leak(v.into_boxed_slice()).as_ptr() as usize, n, n + 1)
    };
    LITERALS.lock().unwrap().push((p, b));
    (p, n as u32)
}

impl Program {
    /// Builds a program from (file, text) pairs. Errors of single POUs are kept in the POU.
    pub fn build(srcs: &[(String, String)], sym: &SymFn) -> R<Program> {
        let mut p = Program::default();
        let mut order = vec![];
        let mut globals = vec![];
        for (f, s) in srcs {
            let u = parse(f, s)?;
            globals.extend(u.globals);
            for a in u.pous {
                let n = up(&a.name);
                if p.asts.contains_key(&n) {
                    return Err(format!("{}: {} is declared twice", f, a.name));
                }
                order.push(n.clone());
                p.asts.insert(n, a);
            }
        }
        for g in &globals {
            let n = up(&g.v.name);
            if let (false, Some(e)) = (g.external, &g.v.init) {
                if let Ok(v) = p.const_int(e) {
                    p.consts.insert(n.clone(), v);
                }
            }
            let ty = p.ty(&g.v.ty, &[])?;
            let size = p.size(&ty)?;
            let addr = if g.external {
                sym(&g.v.name)
            } else {
                let b = Box::leak(vec![0u64; size as usize / 8 + 1].into_boxed_slice()).as_mut_ptr() as usize;
                if let (Some(e), Ty::El(t)) = (&g.v.init, &ty) {
                    let v = p.const_num(e)?;
                    unsafe { crate::exec::store(b as *mut u8, *t, lit_bits(v, *t)) }
                }
                b
            };
            p.globals.insert(n, Global { ty, addr, size });
        }
        for n in &order {
            p.declare(n, sym);
        }
        for n in &order {
            let i = p.index[n];
            if p.pous[i].generic || p.pous[i].external || p.pous[i].err.is_some() {
                continue;
            }
            let ast = p.asts[n].clone();
            let mut cx = Cx { p: &mut p, pou: i, sym };
            let b = cx.stmts(&ast.body);
            p.pous[i].body = b;
        }
        Ok(p)
    }
    pub fn find(&self, n: &str) -> Option<&Pou> {
        self.index.get(&up(n)).map(|i| &self.pous[*i])
    }
    fn const_num(&self, e: &Ex) -> R<Lit> {
        if let Ok(v) = self.const_int(e) {
            return Ok(Lit::I(v));
        }
        Ok(Lit::R(match e {
            Ex::Real(v) | Ex::TReal(_, v) => *v,
            Ex::Neg(e) => match self.const_num(e)? {
                Lit::R(v) => -v,
                Lit::I(v) => -v as f64,
            },
            Ex::Bin(o, a, b) => {
                let f = |l| match l {
                    Lit::R(v) => v,
                    Lit::I(v) => v as f64,
                };
                let (a, b) = (f(self.const_num(a)?), f(self.const_num(b)?));
                match *o {
                    "+" => a + b,
                    "-" => a - b,
                    "*" => a * b,
                    "/" => a / b,
                    _ => return Err("constant expression".into()),
                }
            }
            _ => return Err("constant expression".into()),
        }))
    }
    fn const_int(&self, e: &Ex) -> R<i128> {
        Ok(match e {
            Ex::Int(v) | Ex::TInt(_, v) => *v,
            Ex::Name(n) => *self.consts.get(&up(n)).ok_or(format!("{n} is not a constant"))?,
            Ex::Neg(e) => -self.const_int(e)?,
            Ex::Bin(o, a, b) => {
                let (a, b) = (self.const_int(a)?, self.const_int(b)?);
                match *o {
                    "+" => a + b,
                    "-" => a - b,
                    "*" => a * b,
                    _ => return Err("constant expression".into()),
                }
            }
            _ => return Err("constant expression".into()),
        })
    }
    fn ty(&mut self, t: &TyEx, gens: &[(String, Ty)]) -> R<Ty> {
        Ok(match t {
            TyEx::Name(n) => {
                if let Some((_, t)) = gens.iter().find(|(g, _)| g.eq_ignore_ascii_case(n)) {
                    t.clone()
                } else if let Some(e) = El::parse(n) {
                    Ty::El(e)
                } else if self.asts.get(&up(n)).is_some_and(|a| a.kind != Kind::Function) {
                    Ty::Fb(up(n))
                } else {
                    return Err(format!("unknown type {n}"));
                }
            }
            TyEx::Str(w, n) => {
                let n = match n {
                    Some(e) => self.const_int(e)? as u32,
                    None => 80,
                };
                if *w {
                    Ty::Wstr(n)
                } else {
                    Ty::Str(n)
                }
            }
            TyEx::Ptr(t) => Ty::Ptr(Box::new(self.ty(t, gens)?)),
            TyEx::Arr(a, b, t) => Ty::Arr(Box::new(self.ty(t, gens)?), self.const_int(a)? as i64, self.const_int(b)? as i64),
            TyEx::Variadic(t, sized) => Ty::Var(Box::new(self.ty(t, gens)?), *sized),
        })
    }
    pub fn size(&mut self, t: &Ty) -> R<u32> {
        Ok(match t {
            Ty::El(e) => e.size(),
            Ty::Str(n) => n + 1,
            Ty::Wstr(n) => 2 * (n + 1),
            Ty::Ptr(_) => 8,
            Ty::Arr(t, a, b) => (b - a + 1) as u32 * self.size(t)?,
            Ty::Fb(n) => {
                let i = self.declare(n, &|_| 0);
                if let Some(e) = &self.pous[i].err {
                    return Err(e.clone());
                }
                self.pous[i].inst
            }
            t => return Err(format!("no size for {t:?}")),
        })
    }
    fn align(&mut self, t: &Ty) -> u32 {
        match t {
            Ty::El(e) => e.size(),
            Ty::Str(_) => 1,
            Ty::Wstr(_) => 2,
            Ty::Arr(t, ..) => self.align(t),
            Ty::Fb(n) => {
                let i = self.declare(n, &|_| 0);
                self.pous[i].align
            }
            _ => 8,
        }
    }
    fn declare(&mut self, n: &str, sym: &SymFn) -> usize {
        if let Some(i) = self.index.get(n) {
            let i = *i;
            if self.pous[i].external && self.pous[i].addr == 0 {
                self.pous[i].addr = sym(&self.pous[i].name);
            }
            return i;
        }
        let a = self.asts[n].clone();
        let gens: Vec<(String, Ty)> = a.generics.iter().map(|(g, _)| (g.clone(), Ty::Gen(g.clone()))).collect();
        self.add(n.to_string(), a.name.clone(), &a, &gens, sym)
    }
    fn add(&mut self, key: String, name: String, a: &PouAst, gens: &[(String, Ty)], sym: &SymFn) -> usize {
        let i = self.pous.len();
        let generic = gens.iter().any(|(_, t)| matches!(t, Ty::Gen(_)));
        let mut p = Pou {
            name: name.clone(),
            kind: a.kind,
            external: a.external,
            generic,
            ret: Ty::Void,
            vars: vec![],
            params: vec![],
            frame: 0,
            inst: 0,
            align: 1,
            reds: vec![],
            inits: vec![],
            body: Ok(vec![]),
            addr: 0,
            file: a.file.clone(),
            err: None,
        };
        self.index.insert(key, i);
        self.pous.push(p.clone());
        if let Err(e) = self.layout(&mut p, a, gens) {
            p.err = Some(format!("{}: {}: {e}", a.file, a.name));
        }
        if p.external && !generic {
            p.addr = sym(&name);
        }
        self.pous[i] = p;
        i
    }
    fn layout(&mut self, p: &mut Pou, a: &PouAst, gens: &[(String, Ty)]) -> R<()> {
        if let Some(r) = &a.ret {
            p.ret = self.ty(r, gens)?;
        }
        if p.generic {
            // only the signature counts
            for v in &a.vars {
                let ty = self.ty(&v.ty, gens)?;
                let by_ref = v.sec == Sec::InOut || v.sec == Sec::InputRef || v.sec == Sec::Output;
                if !matches!(v.sec, Sec::Var | Sec::Temp) {
                    p.params.push(p.vars.len());
                }
                p.vars.push(Var { name: up(&v.name), sec: v.sec, ty, off: 0, by_ref, frame: true, ret: false });
            }
            return Ok(());
        }
        let (mut f, mut n, mut al) = (0u32, 0u32, 1u32);
        let fun = p.kind == Kind::Function;
        let mut vars: Vec<(Var, Option<Ex>)> = vec![];
        for v in &a.vars {
            let ty = self.ty(&v.ty, gens)?;
            let by_ref = v.sec == Sec::InOut || v.sec == Sec::InputRef || fun && v.sec == Sec::Output;
            let frame = fun || v.sec == Sec::Temp;
            vars.push((Var { name: up(&v.name), sec: v.sec, ty, off: 0, by_ref, frame, ret: false }, v.init.clone()));
        }
        if fun && p.ret != Ty::Void {
            let by_ref = matches!(p.ret, Ty::Str(_) | Ty::Wstr(_));
            vars.push((Var { name: up(&p.name), sec: Sec::Var, ty: p.ret.clone(), off: 0, by_ref, frame: true, ret: true }, None));
        }
        for (mut v, init) in vars {
            let (s, g) = if v.by_ref {
                (8, 8)
            } else if let Ty::Var(..) = v.ty {
                (0, 1)
            } else {
                (self.size(&v.ty)?, self.align(&v.ty))
            };
            let c = if v.frame { &mut f } else { &mut n };
            *c = c.next_multiple_of(g);
            v.off = *c;
            *c += s;
            if v.frame && !v.by_ref && matches!(v.ty, Ty::Str(_) | Ty::Wstr(_) | Ty::Arr(..)) {
                p.reds.push(*c);
                *c += RED;
            }
            if !v.frame {
                al = al.max(g);
            }
            if let (Some(e), false) = (&init, v.by_ref) {
                let i = match (e, &v.ty) {
                    (Ex::Str(s), Ty::Str(n)) => {
                        let (p, l) = intern(s, false);
                        Init::Str(v.off, p, (*n).min(l))
                    }
                    (Ex::Wstr(s), Ty::Wstr(n)) => {
                        let (p, l) = intern(s, true);
                        Init::Str(v.off, p, 2 * (*n).min(l))
                    }
                    (Ex::Str(s), Ty::El(El::Char)) => Init::Num(v.off, El::Char, s.bytes().next().unwrap_or(0) as u64),
                    (Ex::Wstr(s), Ty::El(El::Wchar)) => Init::Num(v.off, El::Wchar, s.encode_utf16().next().unwrap_or(0) as u64),
                    (Ex::CharL(El::Char, s), Ty::El(El::Char)) => Init::Num(v.off, El::Char, s.bytes().next().unwrap_or(0) as u64),
                    (Ex::CharL(El::Wchar, s), Ty::El(El::Wchar)) => {
                        Init::Num(v.off, El::Wchar, s.encode_utf16().next().unwrap_or(0) as u64)
                    }
                    (e, Ty::El(t)) => Init::Num(v.off, *t, lit_bits(self.const_num(e)?, *t)),
                    (e, t) => return Err(format!("initial value {e:?} of {t:?}")),
                };
                p.inits.push((v.frame, i));
            }
            if !matches!(v.sec, Sec::Var | Sec::Temp) {
                p.params.push(p.vars.len());
            }
            p.vars.push(v);
        }
        p.frame = f.next_multiple_of(16);
        p.align = al;
        p.inst = n.next_multiple_of(al);
        Ok(())
    }
    /// the instantiation of a generic function
    fn instance(&mut self, gi: usize, binds: &[(String, Ty)], sym: &SymFn) -> R<usize> {
        let g = self.pous[gi].name.clone();
        let mut n = g.clone();
        for (_, t) in binds {
            n += "__";
            n += match t {
                Ty::El(e) => e.name(),
                Ty::Str(_) => "STRING",
                Ty::Wstr(_) => "WSTRING",
                _ => return Err(format!("{g} with {t:?}")),
            };
        }
        let k = up(&n);
        if self.asts.contains_key(&k) {
            return Ok(self.declare(&k, sym));
        }
        if let Some(i) = self.index.get(&k) {
            return Ok(*i);
        }
        let mut a = self.asts[&up(&g)].clone();
        a.external = true;
        Ok(self.add(k, n, &a, binds, sym))
    }
}

struct Cx<'a, 'b> {
    p: &'a mut Program,
    pou: usize,
    sym: &'a SymFn<'b>,
}
impl Cx<'_, '_> {
    fn stmts(&mut self, v: &[St]) -> R<Vec<S>> {
        v.iter().map(|s| self.stmt(s)).collect()
    }
    fn num(&mut self, e: &Ex) -> R<(X, El, Option<Lit>)> {
        match self.expr(e)? {
            V::N(x, e, l) => Ok((x, e, l)),
            _ => Err(format!("a number is expected: {e:?}")),
        }
    }
    fn cond(&mut self, e: &Ex) -> R<X> {
        Ok(self.num(e)?.0)
    }
    fn stmt(&mut self, s: &St) -> R<S> {
        Ok(match s {
            St::Assign(l, r) => {
                let (lv, ty) = self.lv(l)?;
                self.assign(lv, &ty, r)?
            }
            St::Expr(e) => match self.expr(e)? {
                V::N(x @ X::Call(_), ..) => S::Do(x),
                V::S(x @ SX::Call(..), ..) => S::DoS(x),
                _ => return Err("expression as a statement".into()),
            },
            St::If(b, e) => {
                let mut v = vec![];
                for (c, b) in b {
                    v.push((self.cond(c)?, self.stmts(b)?));
                }
                S::If(v, self.stmts(e)?)
            }
            St::Case(e, b, els) => {
                let (x, t, _) = self.num(e)?;
                let mut v = vec![];
                for (l, b) in b {
                    let mut ls = vec![];
                    for (a, z) in l {
                        let a = self.p.const_int(a)? as i64;
                        ls.push((a, match z {
                            Some(z) => self.p.const_int(z)? as i64,
                            None => a,
                        }));
                    }
                    v.push((ls, self.stmts(b)?));
                }
                S::Case(x, t, v, self.stmts(els)?)
            }
            St::For(v, a, b, s, body) => {
                let (lv, ty) = self.lv(v)?;
                let Ty::El(t) = ty else { return Err("FOR variable".into()) };
                let (a, b) = (self.num(a)?, self.num(b)?);
                let s = match s {
                    Some(s) => self.num(s)?,
                    None => (X::I(1), El::Dint, Some(Lit::I(1))),
                };
                S::For(lv, t, cast(a, t), cast(b, t), cast(s, t), self.stmts(body)?)
            }
            St::While(c, b) => S::While(self.cond(c)?, self.stmts(b)?),
            St::Repeat(b, c) => S::Repeat(self.stmts(b)?, self.cond(c)?),
            St::Return => S::Return,
            St::Exit => S::Exit,
            St::Continue => S::Continue,
        })
    }
    fn assign(&mut self, lv: Lv, ty: &Ty, r: &Ex) -> R<S> {
        if let (Ty::El(e @ (El::Char | El::Wchar)), Ex::Str(s) | Ex::Wstr(s)) = (ty, r) {
            let c = if *e == El::Char { s.bytes().next().unwrap_or(0) as u64 } else { s.encode_utf16().next().unwrap_or(0) as u64 };
            return Ok(S::Num(lv, X::I(c), *e));
        }
        let v = self.expr(r)?;
        Ok(match (ty, v) {
            (Ty::El(t), V::N(x, f, l)) => S::Num(lv, cast((x, f, l), *t), *t),
            (Ty::Ptr(_), V::P(x)) => S::Ptr(lv, x),
            (Ty::Ptr(_), V::N(x, ..)) => S::Ptr(lv, x),
            (Ty::El(t), V::P(x)) if t.size() == 8 => S::Num(lv, x, *t),
            (Ty::Str(n), V::S(s, false, _)) => S::Str(lv, *n, s, false),
            (Ty::Wstr(n), V::S(s, true, _)) => S::Str(lv, *n, s, true),
            (t, _) => return Err(format!("assignment to {t:?}")),
        })
    }
    fn var_lv(v: &Var) -> Lv {
        match (v.frame, v.by_ref) {
            (true, false) => Lv::Fr(v.off),
            (true, true) => Lv::FrP(v.off),
            (false, false) => Lv::In(v.off),
            (false, true) => Lv::InP(v.off),
        }
    }
    fn lv(&mut self, e: &Ex) -> R<(Lv, Ty)> {
        Ok(match e {
            Ex::Name(n) => {
                if let Some(v) = self.p.pous[self.pou].var(n) {
                    return Ok((Self::var_lv(v), v.ty.clone()));
                }
                if let Some(g) = self.p.globals.get(&up(n)) {
                    return Ok((Lv::Abs(g.addr), g.ty.clone()));
                }
                return Err(format!("unknown name {n}"));
            }
            Ex::Field(b, f) => {
                let (l, t) = self.lv(b)?;
                let Ty::Fb(n) = t else { return Err(format!("member {f} of {t:?}")) };
                let i = self.p.declare(&n, self.sym);
                let v = self.p.pous[i].var(f).ok_or(format!("{n} has no {f}"))?;
                if v.by_ref {
                    return Err("reference member".into());
                }
                (Lv::Off(Box::new(l), v.off), v.ty.clone())
            }
            Ex::Deref(b) => {
                let (l, t) = self.lv(b)?;
                let Ty::Ptr(t) = t else { return Err("dereference of a non-pointer".into()) };
                let (s, u) = match &*t {
                    Ty::Str(n) => (n + 1, 1),
                    Ty::Wstr(n) => (2 * (n + 1), 2),
                    t => (self.p.size(t)?, 0),
                };
                (Lv::Deref(Box::new(X::LdP(l)), s, u), *t)
            }
            Ex::Index(b, ix) => {
                let (l, t) = self.lv(b)?;
                let Ty::Arr(t, a, z) = t else { return Err("index of a non-array".into()) };
                if ix.len() != 1 {
                    return Err("several indices".into());
                }
                let x = cast(self.num(&ix[0])?, El::Lint);
                let es = self.p.size(&t)?;
                (Lv::Index(Box::new(l), Box::new(x), a, z - a + 1, es), *t)
            }
            _ => return Err(format!("not a variable: {e:?}")),
        })
    }
    fn load(&mut self, lv: Lv, ty: Ty) -> R<V> {
        Ok(match ty {
            Ty::El(e) => V::N(X::Ld(lv, e), e, None),
            Ty::Str(n) => V::S(SX::Lv(lv, n), false, n),
            Ty::Wstr(n) => V::S(SX::Lv(lv, n), true, n),
            Ty::Ptr(_) => V::P(X::LdP(lv)),
            t => return Err(format!("value of {t:?}")),
        })
    }
    fn expr(&mut self, e: &Ex) -> R<V> {
        Ok(match e {
            Ex::Int(v) => {
                let t = if i32::try_from(*v).is_ok() {
                    El::Dint
                } else if i64::try_from(*v).is_ok() {
                    El::Lint
                } else {
                    El::Ulint
                };
                V::N(X::I(lit_bits(Lit::I(*v), t)), t, Some(Lit::I(*v)))
            }
            Ex::Real(v) => V::N(X::I(lit_bits(Lit::R(*v), El::Real)), El::Real, Some(Lit::R(*v))),
            Ex::TInt(t, v) => V::N(X::I(lit_bits(Lit::I(*v), *t)), *t, None),
            Ex::TReal(t, v) => V::N(X::I(lit_bits(Lit::R(*v), *t)), *t, None),
            Ex::CharL(El::Char, s) => V::N(X::I(s.bytes().next().unwrap_or(0) as u64), El::Char, None),
            Ex::CharL(El::Wchar, s) => V::N(X::I(s.encode_utf16().next().unwrap_or(0) as u64), El::Wchar, None),
            Ex::CharL(..) => return Err("literal".into()),
            Ex::Str(s) => {
                let (p, n) = intern(s, false);
                V::S(SX::Lit(p, n), false, n)
            }
            Ex::Wstr(s) => {
                let (p, n) = intern(s, true);
                V::S(SX::Lit(p, n), true, n)
            }
            Ex::Name(_) | Ex::Field(..) | Ex::Deref(_) | Ex::Index(..) => {
                let (l, t) = self.lv(e)?;
                self.load(l, t)?
            }
            Ex::Addr(b) => match self.lv(b) {
                Ok((l, _)) => V::P(X::Ad(l)),
                Err(e) => return Err(e),
            },
            Ex::Bit(b, k, n) => {
                let (x, t, _) = self.num(b)?;
                let (w, t2) = match k {
                    'X' => (1, El::Bool),
                    'B' => (8, El::Byte),
                    'W' => (16, El::Word),
                    'D' => (32, El::Dword),
                    _ => return Err(format!("bit access {k}")),
                };
                if (n + 1) * w > t.size() * 8 {
                    return Err("bit access outside the variable".into());
                }
                V::N(X::Bit(Box::new(x), n * w, t2), t2, None)
            }
            Ex::Neg(e) => {
                let (x, t, l) = self.num(e)?;
                let t2 = if t.float() || t.size() == 8 { t } else { El::Dint };
                let l2 = l.map(|l| match l {
                    Lit::I(v) => Lit::I(-v),
                    Lit::R(v) => Lit::R(-v),
                });
                let x = cast((x, t, l), t2);
                V::N(X::Neg(t2, Box::new(x)), t2, l2)
            }
            Ex::Not(e) => {
                let (x, t, _) = self.num(e)?;
                V::N(X::Not(t, Box::new(x)), t, None)
            }
            Ex::Bin("**", a, b) => {
                let args = vec![Arg { name: None, out: false, e: (**a).clone() }, Arg { name: None, out: false, e: (**b).clone() }];
                self.call("EXPT", &args)?
            }
            Ex::Bin(o, a, b) => self.bin(o, a, b)?,
            Ex::Call(f, args) => match &**f {
                Ex::Name(n) if self.p.pous[self.pou].var(n).is_none() || self.p.asts.get(&up(n)).is_some_and(|a| a.kind == Kind::Function) => {
                    self.call(n, args)?
                }
                f => self.call_fb(f, args)?,
            },
        })
    }
    fn bin(&mut self, o: &str, a: &Ex, b: &Ex) -> R<V> {
        let (x, y) = (self.expr(a)?, self.expr(b)?);
        let op = match o {
            "+" => Op::Add,
            "-" => Op::Sub,
            "*" => Op::Mul,
            "/" => Op::Div,
            "MOD" => Op::Mod,
            "AND" => Op::And,
            "OR" => Op::Or,
            "XOR" => Op::Xor,
            "=" => Op::Eq,
            "<>" => Op::Ne,
            "<" => Op::Lt,
            "<=" => Op::Le,
            ">" => Op::Gt,
            ">=" => Op::Ge,
            _ => return Err(format!("operator {o}")),
        };
        match (x, y) {
            (V::N(x, tx, lx), V::N(y, ty, ly)) => {
                let mut t = bigger(tx, ty);
                // a literal takes the type of the other operand's class
                if tx == El::Bool && ty == El::Bool {
                    t = El::Bool
                } else if !t.float() && t.size() < 4 {
                    t = El::Dint
                }
                if t == El::Real && (lx.is_some() && ty == El::Lreal || ly.is_some() && tx == El::Lreal) {
                    t = El::Lreal
                }
                let (x, y) = (cast((x, tx, lx), t), cast((y, ty, ly), t));
                let r = match op {
                    Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge => El::Bool,
                    _ => t,
                };
                Ok(V::N(X::Bin(op, t, Box::new(x), Box::new(y)), r, None))
            }
            (V::S(_, w, _), V::S(..)) => {
                let pre = if w { "WSTRING" } else { "STRING" };
                let arg = |e: &Ex| Arg { name: None, out: false, e: e.clone() };
                let mut one = |n: &str| -> R<X> {
                    match self.call(&format!("{pre}_{n}"), &[arg(a), arg(b)])? {
                        V::N(x, ..) => Ok(x),
                        _ => Err("comparison".into()),
                    }
                };
                let x = match op {
                    Op::Eq => one("EQUAL")?,
                    Op::Ne => X::Bin(Op::Xor, El::Bool, Box::new(one("EQUAL")?), Box::new(X::I(1))),
                    Op::Lt => one("LESS")?,
                    Op::Gt => one("GREATER")?,
                    Op::Le => X::Bin(Op::Or, El::Bool, Box::new(one("LESS")?), Box::new(one("EQUAL")?)),
                    Op::Ge => X::Bin(Op::Or, El::Bool, Box::new(one("GREATER")?), Box::new(one("EQUAL")?)),
                    _ => return Err(format!("operator {o} on strings")),
                };
                Ok(V::N(x, El::Bool, None))
            }
            _ => Err(format!("operands of {o}")),
        }
    }
    /// arguments matched to parameters
    fn bind<'x>(&self, p: &Pou, args: &'x [Arg]) -> R<Vec<Vec<&'x Arg>>> {
        let mut v: Vec<Vec<&Arg>> = vec![vec![]; p.params.len()];
        let mut k = 0;
        for a in args {
            match &a.name {
                Some(n) => {
                    let n = up(n);
                    let i = p.params.iter().position(|i| p.vars[*i].name == n).ok_or(format!("{} has no parameter {n}", p.name))?;
                    v[i].push(a);
                }
                None => {
                    if k >= v.len() {
                        return Err(format!("too many arguments for {}", p.name));
                    }
                    v[k].push(a);
                    if !matches!(p.vars[p.params[k]].ty, Ty::Var(..)) {
                        k += 1;
                    }
                }
            }
        }
        Ok(v)
    }
    fn call(&mut self, n: &str, args: &[Arg]) -> R<V> {
        let k = up(n);
        if let Some(v) = self.builtin(&k, args)? {
            return Ok(v);
        }
        if !self.p.asts.contains_key(&k) && !self.p.index.contains_key(&k) {
            return Err(format!("unknown function {n}"));
        }
        let mut i = self.p.declare(&k, self.sym);
        if self.p.pous[i].generic {
            let g = self.p.pous[i].clone();
            if let Some(e) = g.err {
                return Err(e);
            }
            let gens = self.p.asts[&k].generics.clone();
            let b = self.bind(&g, args)?;
            let mut binds = vec![];
            for (gn, nature) in gens {
                let mut t: Option<Ty> = None;
                for (pi, l) in b.iter().enumerate() {
                    let pt = match &g.vars[g.params[pi]].ty {
                        Ty::Var(t, _) => (**t).clone(),
                        t => t.clone(),
                    };
                    if pt != Ty::Gen(gn.clone()) {
                        continue;
                    }
                    for a in l {
                        // outputs take part through their variable
                        let at = match self.expr(&a.e)? {
                            V::N(_, e, _) => Ty::El(e),
                            V::S(_, false, _) => Ty::Str(80),
                            V::S(_, true, _) => Ty::Wstr(80),
                            V::P(_) => return Err("pointer argument".into()),
                        };
                        t = Some(match (t, at) {
                            (None, t) => t,
                            (Some(Ty::El(a)), Ty::El(b)) => Ty::El(bigger(a, b)),
                            (Some(t), _) => t,
                        });
                    }
                }
                let mut t = t.ok_or(format!("{n}: {gn} cannot be deduced"))?;
                if let (Ty::El(e), true) = (&t, nature.eq_ignore_ascii_case("ANY_REAL")) {
                    if !e.float() {
                        t = Ty::El(El::Lreal);
                    }
                }
                binds.push((gn, t));
            }
            i = self.p.instance(i, &binds, self.sym)?;
        }
        let p = self.p.pous[i].clone();
        if let Some(e) = &p.err {
            return Err(e.clone());
        }
        let b = self.bind(&p, args)?;
        let mut av = vec![];
        for (pi, l) in b.iter().enumerate() {
            av.push(self.arg(&p.vars[p.params[pi]], l)?);
        }
        let c = Box::new(Call { pou: i, args: av, inst: None, outs: vec![] });
        Ok(match p.ret {
            Ty::El(e) => V::N(X::Call(c), e, None),
            Ty::Str(n) => V::S(SX::Call(c, n), false, n),
            Ty::Wstr(n) => V::S(SX::Call(c, n), true, n),
            Ty::Ptr(_) => V::P(X::Call(c)),
            Ty::Void => V::N(X::Call(c), El::Dint, None),
            t => return Err(format!("{n} returns {t:?}")),
        })
    }
    fn text(&mut self, e: &Ex, wide: bool) -> R<SX> {
        match self.expr(e)? {
            V::S(s, w, _) if w == wide => Ok(s),
            _ => Err(format!("text is expected: {e:?}")),
        }
    }
    fn arg(&mut self, v: &Var, l: &[&Arg]) -> R<A> {
        if let Ty::Var(t, sized) = &v.ty {
            if !sized {
                return Err("unsized variadic".into());
            }
            let mut xs = vec![];
            let mut el = None;
            for a in l {
                match &**t {
                    Ty::El(e) if v.sec != Sec::InputRef => {
                        let n = self.num(&a.e)?;
                        xs.push(cast(n, *e));
                        el = Some(*e);
                    }
                    Ty::Str(_) => xs.push(X::S(Box::new(self.text(&a.e, false)?))),
                    Ty::Wstr(_) => xs.push(X::S(Box::new(self.text(&a.e, true)?))),
                    t => return Err(format!("variadic {t:?}")),
                }
            }
            return Ok(A::Many(xs, el));
        }
        let Some(a) = l.first() else {
            return Ok(if v.by_ref {
                A::Scratch(self.p.size(&v.ty)?)
            } else {
                A::Default
            });
        };
        Ok(match (&v.ty, v.by_ref) {
            (Ty::Str(_), r) => {
                let s = self.text(&a.e, false)?;
                if r {
                    A::Ptr(X::S(Box::new(s)))
                } else {
                    A::Str(s)
                }
            }
            (Ty::Wstr(_), r) => {
                let s = self.text(&a.e, true)?;
                if r {
                    A::Ptr(X::S(Box::new(s)))
                } else {
                    A::Str(s)
                }
            }
            (Ty::El(t), true) => match self.lv(&a.e) {
                Ok((l, Ty::El(t2))) if t2.size() == t.size() => A::Ptr(X::Ad(l)),
                _ => return Err(format!("{} is passed by reference: {:?}", v.name, a.e)),
            },
            (Ty::El(t @ (El::Char | El::Wchar)), false) if matches!(a.e, Ex::Str(_) | Ex::Wstr(_)) => {
                let (Ex::Str(s) | Ex::Wstr(s)) = &a.e else { unreachable!() };
                let c = if *t == El::Char { s.bytes().next().unwrap_or(0) as u64 } else { s.encode_utf16().next().unwrap_or(0) as u64 };
                A::Val(X::I(c), *t)
            }
            (Ty::El(t), false) => {
                let n = self.num(&a.e)?;
                A::Val(cast(n, *t), *t)
            }
            (Ty::Ptr(_), false) => match self.expr(&a.e)? {
                V::P(x) => A::Val(x, El::Lword),
                _ => return Err("pointer argument".into()),
            },
            (_, true) => A::Ptr(X::Ad(self.lv(&a.e)?.0)),
            (t, _) => return Err(format!("argument of type {t:?}")),
        })
    }
    fn call_fb(&mut self, f: &Ex, args: &[Arg]) -> R<V> {
        let (lv, t) = self.lv(f)?;
        let Ty::Fb(n) = t else { return Err(format!("call of {t:?}")) };
        let i = self.p.declare(&n, self.sym);
        let p = self.p.pous[i].clone();
        if let Some(e) = &p.err {
            return Err(e.clone());
        }
        let b = self.bind(&p, args)?;
        let (mut av, mut outs) = (vec![], vec![]);
        for (pi, l) in b.iter().enumerate() {
            let vi = p.params[pi];
            let v = &p.vars[vi];
            if v.sec == Sec::Output {
                if let Some(a) = l.first() {
                    let (l, t) = self.lv(&a.e)?;
                    outs.push((vi, l, t));
                }
                av.push(A::Default);
            } else if l.is_empty() {
                av.push(A::Default);
            } else {
                av.push(self.arg(v, l)?);
            }
        }
        Ok(V::N(X::Call(Box::new(Call { pou: i, args: av, inst: Some(lv), outs })), El::Dint, None))
    }
    fn builtin(&mut self, k: &str, args: &[Arg]) -> R<Option<V>> {
        if self.p.asts.contains_key(k) {
            return Ok(None);
        }
        Ok(Some(match (k, args.len()) {
            ("ADR" | "REF", 1) => V::P(X::Ad(self.lv(&args[0].e)?.0)),
            ("SIZEOF", 1) => {
                let t = self.lv(&args[0].e)?.1;
                let s = self.p.size(&t)?;
                V::N(X::I(s as u64), El::Ulint, None)
            }
            ("MOVE", 1) => self.expr(&args[0].e)?,
            ("SEL", 3) | ("MUX", 2..) => {
                let k = cast(self.num(&args[0].e)?, El::Lint);
                let vs: Vec<V> = args[1..].iter().map(|a| self.expr(&a.e)).collect::<R<_>>()?;
                match &vs[0] {
                    V::N(_, t, _) => {
                        let mut t = *t;
                        let mut ns = vec![];
                        for v in vs {
                            let V::N(x, e, l) = v else { return Err("SEL".into()) };
                            t = bigger(t, e);
                            ns.push((x, e, l));
                        }
                        V::N(X::Pick(Box::new(k), ns.into_iter().map(|n| cast(n, t)).collect()), t, None)
                    }
                    V::S(_, w, _) => {
                        let w = *w;
                        let mut cap = 0;
                        let mut ss = vec![];
                        for v in vs {
                            let V::S(s, w2, n) = v else { return Err("SEL".into()) };
                            if w != w2 {
                                return Err("SEL".into());
                            }
                            cap = cap.max(n);
                            ss.push(s);
                        }
                        V::S(SX::Pick(Box::new(k), ss), w, cap)
                    }
                    _ => return Err("SEL".into()),
                }
            }
            _ => return Ok(None),
        }))
    }
}
