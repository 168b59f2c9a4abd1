//! Lexer and parser for the Structured Text of the standard library (and of the repository's integration tests).
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum El {
    Bool,
    Byte,
    Word,
    Dword,
    Lword,
    Sint,
    Int,
    Dint,
    Lint,
    Usint,
    Uint,
    Udint,
    Ulint,
    Real,
    Lreal,
    Char,
    Wchar,
    Time,
    Date,
    Dt,
    Tod,
}
impl El {
    pub const ALL: [El; 21] = [
        El::Bool, El::Byte, El::Word, El::Dword, El::Lword, El::Sint, El::Int, El::Dint, El::Lint, El::Usint, El::Uint, El::Udint,
        El::Ulint, El::Real, El::Lreal, El::Char, El::Wchar, El::Time, El::Date, El::Dt, El::Tod,
    ];
    /// the name generic functions are mangled with
    pub fn name(self) -> &'static str {
        match self {
            El::Bool => "BOOL",
            El::Byte => "BYTE",
            El::Word => "WORD",
            El::Dword => "DWORD",
            El::Lword => "LWORD",
            El::Sint => "SINT",
            El::Int => "INT",
            El::Dint => "DINT",
            El::Lint => "LINT",
            El::Usint => "USINT",
            El::Uint => "UINT",
            El::Udint => "UDINT",
            El::Ulint => "ULINT",
            El::Real => "REAL",
            El::Lreal => "LREAL",
            El::Char => "CHAR",
            El::Wchar => "WCHAR",
            El::Time => "TIME",
            El::Date => "DATE",
            El::Dt => "DATE_AND_TIME",
            El::Tod => "TIME_OF_DAY",
        }
    }
    pub fn parse(s: &str) -> Option<El> {
        Some(match s.to_ascii_uppercase().as_str() {
            "LTIME" => El::Time,
            "LDATE" => El::Date,
            "DT" | "LDT" | "LDATE_AND_TIME" => El::Dt,
            "TOD" | "LTOD" | "LTIME_OF_DAY" => El::Tod,
            u => return El::ALL.iter().find(|e| e.name() == u).copied(),
        })
    }
    pub fn size(self) -> u32 {
        match self {
            El::Bool | El::Byte | El::Sint | El::Usint | El::Char => 1,
            El::Word | El::Int | El::Uint | El::Wchar => 2,
            El::Dword | El::Dint | El::Udint | El::Real => 4,
            _ => 8,
        }
    }
    pub fn signed(self) -> bool {
        matches!(self, El::Sint | El::Int | El::Dint | El::Lint | El::Time | El::Date | El::Dt | El::Tod)
    }
    pub fn float(self) -> bool {
        matches!(self, El::Real | El::Lreal)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    El(El),
    Str(u32),
    Wstr(u32),
    Ptr(Box<Ty>),
    Arr(Box<Ty>, i64, i64),
    /// function block instance, by upper-case name
    Fb(String),
    /// a generic parameter
    Gen(String),
    /// 0: any string / variadic of
    Var(Box<Ty>, bool),
    Void,
}
impl fmt::Display for Ty {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Ty::El(e) => write!(f, "{}", e.name()),
            Ty::Str(n) => write!(f, "STRING[{n}]"),
            Ty::Wstr(n) => write!(f, "WSTRING[{n}]"),
            t => write!(f, "{t:?}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Int(i128),
    Real(f64),
    Typed(El, Box<Tok>),
    Str(String),
    Wstr(String),
    Sym(&'static str),
    Pragma(String),
    Eof,
}

#[derive(Clone, Debug)]
pub enum Ex {
    Int(i128),
    Real(f64),
    TInt(El, i128),
    TReal(El, f64),
    Str(String),
    Wstr(String),
    CharL(El, String),
    Name(String),
    Field(Box<Ex>, String),
    Bit(Box<Ex>, char, u32),
    Index(Box<Ex>, Vec<Ex>),
    Deref(Box<Ex>),
    Addr(Box<Ex>),
    Neg(Box<Ex>),
    Not(Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Call(Box<Ex>, Vec<Arg>),
}
#[derive(Clone, Debug)]
pub struct Arg {
    pub name: Option<String>,
    pub out: bool,
    pub e: Ex,
}
#[derive(Clone, Debug)]
pub enum St {
    Assign(Ex, Ex),
    Expr(Ex),
    If(Vec<(Ex, Vec<St>)>, Vec<St>),
    Case(Ex, Vec<(Vec<(Ex, Option<Ex>)>, Vec<St>)>, Vec<St>),
    For(Ex, Ex, Ex, Option<Ex>, Vec<St>),
    While(Ex, Vec<St>),
    Repeat(Vec<St>, Ex),
    Return,
    Exit,
    Continue,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sec {
    Input,
    InputRef,
    Output,
    InOut,
    Var,
    Temp,
}
#[derive(Clone, Debug)]
pub struct VarDecl {
    pub name: String,
    pub sec: Sec,
    pub ty: TyEx,
    pub init: Option<Ex>,
}
/// type as written (sizes may be constant expressions)
#[derive(Clone, Debug)]
pub enum TyEx {
    Name(String),
    Str(bool, Option<Box<Ex>>),
    Ptr(Box<TyEx>),
    Arr(Ex, Ex, Box<TyEx>),
    Variadic(Box<TyEx>, bool),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Function,
    Fb,
    Program,
}
#[derive(Clone, Debug)]
pub struct PouAst {
    pub kind: Kind,
    pub name: String,
    pub generics: Vec<(String, String)>,
    pub ret: Option<TyEx>,
    pub vars: Vec<VarDecl>,
    pub body: Vec<St>,
    pub external: bool,
    pub file: String,
}
#[derive(Clone, Debug)]
pub struct GlobalAst {
    pub v: VarDecl,
    pub external: bool,
}
#[derive(Default, Clone, Debug)]
pub struct Unit {
    pub pous: Vec<PouAst>,
    pub globals: Vec<GlobalAst>,
}

// ------------------------------------------------------------------ lexer
const SYMS: &[&str] = &[
    ":=", "=>", "...", "..", "<>", "<=", ">=", "**", "(", ")", "[", "]", ",", ";", ":", ".", "<", ">", "=", "+", "-", "*", "/", "&", "^",
    "%", "{", "}", "#",
];
fn unescape(raw: &[char], wide: bool) -> Result<String, String> {
    let mut o = String::new();
    let mut i = 0;
    while i < raw.len() {
        if raw[i] == '$' && i + 1 < raw.len() {
            let c = raw[i + 1];
            i += 2;
            match c {
                '$' | '\'' | '"' => o.push(c),
                'L' | 'l' | 'N' | 'n' => o.push('\n'),
                'P' | 'p' => o.push('\u{c}'),
                'R' | 'r' => o.push('\r'),
                'T' | 't' => o.push('\t'),
                _ => {
                    let n = if wide { 4 } else { 2 };
                    let h: String = raw[i - 1..(i - 1 + n).min(raw.len())].iter().collect();
                    let v = u32::from_str_radix(&h, 16).map_err(|_| format!("bad escape ${h}"))?;
                    o.push(char::from_u32(v).ok_or("bad escape")?);
                    i += n - 1;
                }
            }
        } else {
            o.push(raw[i]);
            i += 1;
        }
    }
    Ok(o)
}
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
/// decimal "12.5" times mul, exactly where it fits
fn decimal(s: &str, mul: i128) -> Result<i128, String> {
    let (a, b) = s.split_once('.').unwrap_or((s, ""));
    let b: String = b.chars().take(18).collect();
    let int: i128 = if a.is_empty() { 0 } else { a.replace('_', "").parse().map_err(|_| format!("bad number {s}"))? };
    let mut r = int * mul;
    if !b.is_empty() {
        let f: i128 = b.replace('_', "").parse().map_err(|_| format!("bad number {s}"))?;
        r += f * mul / 10i128.pow(b.len() as u32);
    }
    Ok(r)
}
fn time_lit(s: &str) -> Result<i128, String> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let c: Vec<char> = s.chars().filter(|c| *c != '_').collect();
    let mut i = 0;
    let mut t = 0i128;
    while i < c.len() {
        let st = i;
        while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') {
            i += 1
        }
        let num: String = c[st..i].iter().collect();
        let st = i;
        while i < c.len() && c[i].is_ascii_alphabetic() {
            i += 1
        }
        let unit: String = c[st..i].iter().collect::<String>().to_ascii_lowercase();
        let m = match unit.as_str() {
            "d" => 86_400_000_000_000,
            "h" => 3_600_000_000_000,
            "m" => 60_000_000_000,
            "s" => 1_000_000_000,
            "ms" => 1_000_000,
            "us" => 1_000,
            "ns" => 1,
            _ => return Err(format!("bad duration {s}")),
        };
        t += decimal(&num, m)?;
    }
    let t = if neg { -t } else { t };
    if i64::try_from(t).is_err() {
        return Err(format!("duration {s} is out of range"));
    }
    Ok(t)
}
fn date_part(s: &str) -> Result<i128, String> {
    let p: Vec<i64> = s.split('-').map(|x| x.parse().map_err(|_| format!("bad date {s}"))).collect::<Result<_, _>>()?;
    if p.len() != 3 {
        return Err(format!("bad date {s}"));
    }
    Ok(days_from_civil(p[0], p[1], p[2]) as i128 * 86_400_000_000_000)
}
fn tod_part(s: &str) -> Result<i128, String> {
    let p: Vec<&str> = s.split(':').collect();
    if p.len() < 2 || p.len() > 3 {
        return Err(format!("bad time of day {s}"));
    }
    Ok(decimal(p[0], 3_600_000_000_000)? + decimal(p[1], 60_000_000_000)? + if p.len() > 2 { decimal(p[2], 1_000_000_000)? } else { 0 })
}

pub struct Lexer<'a> {
    c: Vec<char>,
    i: usize,
    file: &'a str,
}
impl<'a> Lexer<'a> {
    fn err<T>(&self, m: impl Into<String>) -> Result<T, String> {
        let line = self.c[..self.i.min(self.c.len())].iter().filter(|c| **c == '\n').count() + 1;
        Err(format!("{}:{line}: {}", self.file, m.into()))
    }
    fn at(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, ch)| self.c.get(self.i + k) == Some(&ch))
    }
    fn skip(&mut self) -> Result<(), String> {
        loop {
            if self.i < self.c.len() && self.c[self.i].is_whitespace() {
                self.i += 1;
            } else if self.at("//") {
                while self.i < self.c.len() && self.c[self.i] != '\n' {
                    self.i += 1
                }
            } else if self.at("(*") || self.at("/*") {
                let (o, c) = if self.at("(*") { ("(*", "*)") } else { ("/*", "*/") };
                self.i += 2;
                let mut d = 1;
                while d > 0 {
                    if self.i >= self.c.len() {
                        return self.err("unterminated comment");
                    }
                    if self.at(c) {
                        d -= 1;
                        self.i += 2
                    } else if self.at(o) {
                        d += 1;
                        self.i += 2
                    } else {
                        self.i += 1
                    }
                }
            } else {
                return Ok(());
            }
        }
    }
    fn take(&mut self, f: impl Fn(char) -> bool) -> String {
        let st = self.i;
        while self.i < self.c.len() && f(self.c[self.i]) {
            self.i += 1
        }
        self.c[st..self.i].iter().collect()
    }
    fn number(&mut self) -> Result<Tok, String> {
        let neg = if self.at("-") {
            self.i += 1;
            true
        } else {
            if self.at("+") {
                self.i += 1
            }
            false
        };
        let st = self.i;
        let d = self.take(|c| c.is_ascii_digit() || c == '_').replace('_', "");
        if d.is_empty() {
            return self.err("number expected");
        }
        if self.at("#") {
            self.i += 1;
            let radix: u32 = d.parse().map_err(|_| "radix".to_string())?;
            if !(2..=36).contains(&radix) {
                return self.err("bad radix");
            }
            let t = self.take(|c| c.is_ascii_alphanumeric() || c == '_').replace('_', "");
            let v = i128::from_str_radix(&t, radix).or_else(|_| self.err(format!("bad literal {t}")))?;
            return Ok(Tok::Int(if neg { -v } else { v }));
        }
        let mut real = false;
        if self.at(".") && self.c.get(self.i + 1).is_some_and(|c| c.is_ascii_digit()) {
            real = true;
            self.i += 1;
            self.take(|c| c.is_ascii_digit() || c == '_');
        }
        if (self.at("e") || self.at("E"))
            && (self.c.get(self.i + 1).is_some_and(|c| c.is_ascii_digit())
                || matches!(self.c.get(self.i + 1), Some('+') | Some('-')) && self.c.get(self.i + 2).is_some_and(|c| c.is_ascii_digit()))
        {
            real = true;
            self.i += 2;
            self.take(|c| c.is_ascii_digit());
        }
        let s: String = self.c[st..self.i].iter().filter(|c| **c != '_').collect();
        Ok(if real {
            let v: f64 = s.parse().map_err(|_| format!("bad number {s}"))?;
            Tok::Real(if neg { -v } else { v })
        } else {
            let v: i128 = s.parse().map_err(|_| format!("bad number {s}"))?;
            Tok::Int(if neg { -v } else { v })
        })
    }
    fn quoted(&mut self) -> Result<Tok, String> {
        let q = self.c[self.i];
        self.i += 1;
        let st = self.i;
        while self.i < self.c.len() && self.c[self.i] != q {
            self.i += if self.c[self.i] == '$' { 2 } else { 1 }
        }
        if self.i >= self.c.len() {
            return self.err("unterminated string");
        }
        let s = unescape(&self.c[st..self.i], q == '"')?;
        self.i += 1;
        Ok(if q == '"' { Tok::Wstr(s) } else { Tok::Str(s) })
    }
    fn next(&mut self) -> Result<Tok, String> {
        self.skip()?;
        let Some(&c) = self.c.get(self.i) else { return Ok(Tok::Eof) };
        if c.is_ascii_digit() {
            return self.number();
        }
        if c == '\'' || c == '"' {
            return self.quoted();
        }
        if c == '{' {
            self.i += 1;
            let p = self.take(|c| c != '}');
            self.i += 1;
            return Ok(Tok::Pragma(p.trim().to_ascii_lowercase()));
        }
        if c.is_alphabetic() || c == '_' {
            let id = self.take(|c| c.is_alphanumeric() || c == '_');
            if self.at("#") {
                let u = id.to_ascii_uppercase();
                self.i += 1;
                let el = match u.as_str() {
                    "T" | "LT" => El::Time,
                    "D" | "LD" => El::Date,
                    "STRING" | "WSTRING" => return self.quoted(),
                    _ => match El::parse(&u) {
                        Some(e) => e,
                        None => return self.err(format!("unknown literal type {id}")),
                    },
                };
                let v = match el {
                    El::Time => {
                        let t = self.take(|c| c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '-');
                        time_lit(&t)?
                    }
                    El::Date => date_part(&self.take(|c| c.is_ascii_digit() || c == '-'))?,
                    El::Tod => tod_part(&self.take(|c| c.is_ascii_digit() || c == ':' || c == '.'))?,
                    El::Dt => {
                        let t = self.take(|c| c.is_ascii_digit() || c == ':' || c == '.' || c == '-');
                        let k = t.rfind('-').ok_or("bad date and time")?;
                        date_part(&t[..k])? + tod_part(&t[k + 1..])?
                    }
                    El::Char | El::Wchar => {
                        let q = self.quoted()?;
                        return Ok(Tok::Typed(el, Box::new(q)));
                    }
                    El::Bool if self.c.get(self.i).is_some_and(|c| c.is_alphabetic()) => {
                        let t = self.take(|c| c.is_alphanumeric());
                        t.eq_ignore_ascii_case("true") as i128
                    }
                    _ => {
                        let t = self.number()?;
                        return Ok(Tok::Typed(el, Box::new(t)));
                    }
                };
                return Ok(Tok::Typed(el, Box::new(Tok::Int(v))));
            }
            return Ok(Tok::Id(id));
        }
        for s in SYMS {
            if self.at(s) {
                self.i += s.len();
                return Ok(Tok::Sym(s));
            }
        }
        self.err(format!("unexpected character {c:?}"))
    }
}

// ------------------------------------------------------------------ parser
pub struct Parser<'a> {
    t: Vec<(Tok, usize)>,
    i: usize,
    file: &'a str,
    src: &'a str,
}
type P<T> = Result<T, String>;
pub fn parse(file: &str, src: &str) -> P<Unit> {
    let mut l = Lexer { c: src.chars().collect(), i: 0, file };
    let mut t = vec![];
    loop {
        l.skip()?;
        let pos = l.i;
        let k = l.next()?;
        let end = k == Tok::Eof;
        t.push((k, pos));
        if end {
            break;
        }
    }
    Parser { t, i: 0, file, src }.unit()
}
impl<'a> Parser<'a> {
    fn peek(&self) -> &Tok {
        &self.t[self.i].0
    }
    fn peek2(&self) -> &Tok {
        &self.t[(self.i + 1).min(self.t.len() - 1)].0
    }
    fn err<T>(&self, m: impl fmt::Display) -> P<T> {
        let pos = self.t[self.i].1;
        let line = self.src.chars().take(pos).filter(|c| *c == '\n').count() + 1;
        Err(format!("{}:{line}: {m}, found {:?}", self.file, self.peek()))
    }
    fn bump(&mut self) -> Tok {
        let t = self.t[self.i].0.clone();
        if self.i + 1 < self.t.len() {
            self.i += 1
        }
        t
    }
    fn sym(&mut self, s: &str) -> bool {
        if matches!(self.peek(), Tok::Sym(x) if *x == s) {
            self.bump();
            return true;
        }
        false
    }
    fn need(&mut self, s: &str) -> P<()> {
        if self.sym(s) {
            Ok(())
        } else {
            self.err(format!("{s} expected"))
        }
    }
    fn is_kw(&self, k: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if x.eq_ignore_ascii_case(k))
    }
    fn kw(&mut self, k: &str) -> bool {
        if self.is_kw(k) {
            self.bump();
            return true;
        }
        false
    }
    fn any_kw(&self, ks: &[&str]) -> bool {
        ks.iter().any(|k| self.is_kw(k))
    }
    fn ident(&mut self) -> P<String> {
        match self.bump() {
            Tok::Id(s) => Ok(s),
            _ => {
                self.i -= 1;
                self.err("identifier expected")
            }
        }
    }
    fn unit(mut self) -> P<Unit> {
        let mut u = Unit::default();
        let mut ext = false;
        loop {
            match self.peek().clone() {
                Tok::Eof => return Ok(u),
                Tok::Pragma(p) => {
                    ext = p == "external";
                    self.bump();
                }
                Tok::Sym(";") => {
                    self.bump();
                }
                Tok::Id(k) => {
                    let kind = match k.to_ascii_uppercase().as_str() {
                        "FUNCTION" => Kind::Function,
                        "FUNCTION_BLOCK" => Kind::Fb,
                        "PROGRAM" => Kind::Program,
                        "TYPE" => {
                            self.bump();
                            while !self.kw("END_TYPE") {
                                let name = self.ident()?;
                                self.need(":")?;
                                self.want("STRUCT")?;
                                let mut vars = vec![];
                                self.decls_until(Sec::Var, &mut vars, "END_STRUCT")?;
                                self.sym(";");
                                u.pous.push(PouAst {
                                    kind: Kind::Fb,
                                    name,
                                    generics: vec![],
                                    ret: None,
                                    vars,
                                    body: vec![],
                                    external: false,
                                    file: self.file.to_string(),
                                });
                            }
                            continue;
                        }
                        "VAR_GLOBAL" => {
                            self.bump();
                            while self.kw("CONSTANT") || self.kw("RETAIN") {}
                            let mut vs = vec![];
                            self.decls(Sec::Var, &mut vs)?;
                            u.globals.extend(vs.into_iter().map(|v| GlobalAst { v, external: ext }));
                            ext = false;
                            continue;
                        }
                        _ => return self.err("declaration expected"),
                    };
                    self.bump();
                    let p = self.pou(kind, ext)?;
                    u.pous.push(p);
                    ext = false;
                }
                _ => return self.err("declaration expected"),
            }
        }
    }
    fn pou(&mut self, kind: Kind, external: bool) -> P<PouAst> {
        let name = self.ident()?;
        let mut generics = vec![];
        if self.sym("<") {
            loop {
                let n = self.ident()?;
                self.need(":")?;
                generics.push((n, self.ident()?));
                if !self.sym(",") {
                    break;
                }
            }
            self.need(">")?;
        }
        let ret = if self.sym(":") { Some(self.ty()?) } else { None };
        self.sym(";");
        let mut vars = vec![];
        loop {
            let sec = if self.kw("VAR_INPUT") {
                Sec::Input
            } else if self.kw("VAR_OUTPUT") {
                Sec::Output
            } else if self.kw("VAR_IN_OUT") {
                Sec::InOut
            } else if self.kw("VAR_TEMP") {
                Sec::Temp
            } else if self.kw("VAR") {
                Sec::Var
            } else {
                break;
            };
            let mut sec = sec;
            loop {
                if let Tok::Pragma(p) = self.peek().clone() {
                    if p == "ref" && sec == Sec::Input {
                        sec = Sec::InputRef
                    }
                    self.bump();
                } else if !(self.kw("CONSTANT") || self.kw("RETAIN")) {
                    break;
                }
            }
            self.decls(sec, &mut vars)?;
        }
        let end = match kind {
            Kind::Function => "END_FUNCTION",
            Kind::Fb => "END_FUNCTION_BLOCK",
            Kind::Program => "END_PROGRAM",
        };
        let body = self.stmts(&[end])?;
        if !self.kw(end) {
            return self.err(format!("{end} expected"));
        }
        Ok(PouAst { kind, name, generics, ret, vars, body, external, file: self.file.to_string() })
    }
    fn decls(&mut self, sec: Sec, out: &mut Vec<VarDecl>) -> P<()> {
        self.decls_until(sec, out, "END_VAR")
    }
    fn decls_until(&mut self, sec: Sec, out: &mut Vec<VarDecl>, end: &str) -> P<()> {
        while !self.kw(end) {
            let mut names = vec![self.ident()?];
            while self.sym(",") {
                names.push(self.ident()?)
            }
            self.need(":")?;
            let ty = self.ty()?;
            let init = if self.sym(":=") { Some(self.expr()?) } else { None };
            self.need(";")?;
            for name in names {
                out.push(VarDecl { name, sec, ty: ty.clone(), init: init.clone() })
            }
        }
        Ok(())
    }
    fn ty(&mut self) -> P<TyEx> {
        let mut sized = false;
        if let Tok::Pragma(p) = self.peek().clone() {
            sized = p == "sized";
            self.bump();
        }
        let n = self.ident()?;
        let t = match n.to_ascii_uppercase().as_str() {
            w @ ("STRING" | "WSTRING") => {
                let wide = w == "WSTRING";
                if self.sym("[") {
                    let e = self.expr()?;
                    self.need("]")?;
                    TyEx::Str(wide, Some(Box::new(e)))
                } else {
                    TyEx::Str(wide, None)
                }
            }
            "REF_TO" => TyEx::Ptr(Box::new(self.ty()?)),
            "POINTER" => {
                if !self.kw("TO") {
                    return self.err("TO expected");
                }
                TyEx::Ptr(Box::new(self.ty()?))
            }
            "ARRAY" => {
                self.need("[")?;
                let a = self.expr()?;
                self.need("..")?;
                let b = self.expr()?;
                self.need("]")?;
                if !self.kw("OF") {
                    return self.err("OF expected");
                }
                TyEx::Arr(a, b, Box::new(self.ty()?))
            }
            _ => TyEx::Name(n),
        };
        Ok(if self.sym("...") { TyEx::Variadic(Box::new(t), sized) } else { t })
    }
    fn stmts(&mut self, ends: &[&str]) -> P<Vec<St>> {
        let mut v = vec![];
        loop {
            if self.sym(";") {
                continue;
            }
            if matches!(self.peek(), Tok::Eof) || self.any_kw(ends) {
                return Ok(v);
            }
            // inside CASE: a selector ends the statement list
            if ends.contains(&"END_CASE") && self.case_label() {
                return Ok(v);
            }
            v.push(self.stmt()?);
        }
    }
    fn case_label(&mut self) -> bool {
        let save = self.i;
        let ok = (|| {
            loop {
                self.expr().ok()?;
                if self.sym("..") {
                    self.expr().ok()?;
                }
                if self.sym(",") {
                    continue;
                }
                return if self.sym(":") { Some(()) } else { None };
            }
        })()
        .is_some();
        self.i = save;
        ok
    }
    fn stmt(&mut self) -> P<St> {
        if self.kw("IF") {
            let mut br = vec![];
            let c = self.expr()?;
            self.want("THEN")?;
            br.push((c, self.stmts(&["ELSIF", "ELSE", "END_IF"])?));
            let mut els = vec![];
            loop {
                if self.kw("ELSIF") {
                    let c = self.expr()?;
                    self.want("THEN")?;
                    br.push((c, self.stmts(&["ELSIF", "ELSE", "END_IF"])?));
                } else if self.kw("ELSE") {
                    els = self.stmts(&["END_IF"])?;
                } else {
                    self.want("END_IF")?;
                    return Ok(St::If(br, els));
                }
            }
        }
        if self.kw("CASE") {
            let e = self.expr()?;
            self.want("OF")?;
            let mut br = vec![];
            let mut els = vec![];
            loop {
                if self.kw("END_CASE") {
                    return Ok(St::Case(e, br, els));
                }
                if self.kw("ELSE") {
                    els = self.stmts(&["END_CASE"])?;
                    continue;
                }
                let mut labs = vec![];
                loop {
                    let a = self.expr()?;
                    let b = if self.sym("..") { Some(self.expr()?) } else { None };
                    labs.push((a, b));
                    if !self.sym(",") {
                        break;
                    }
                }
                self.need(":")?;
                br.push((labs, self.stmts(&["ELSE", "END_CASE"])?));
            }
        }
        if self.kw("FOR") {
            let v = self.postfix()?;
            self.need(":=")?;
            let a = self.expr()?;
            self.want("TO")?;
            let b = self.expr()?;
            let s = if self.kw("BY") { Some(self.expr()?) } else { None };
            self.want("DO")?;
            let body = self.stmts(&["END_FOR"])?;
            self.want("END_FOR")?;
            return Ok(St::For(v, a, b, s, body));
        }
        if self.kw("WHILE") {
            let c = self.expr()?;
            self.want("DO")?;
            let b = self.stmts(&["END_WHILE"])?;
            self.want("END_WHILE")?;
            return Ok(St::While(c, b));
        }
        if self.kw("REPEAT") {
            let b = self.stmts(&["UNTIL"])?;
            self.want("UNTIL")?;
            let c = self.expr()?;
            self.want("END_REPEAT")?;
            return Ok(St::Repeat(b, c));
        }
        let s = if self.kw("RETURN") {
            St::Return
        } else if self.kw("EXIT") {
            St::Exit
        } else if self.kw("CONTINUE") {
            St::Continue
        } else {
            let l = self.expr()?;
            if self.sym(":=") {
                let r = self.expr()?;
                St::Assign(l, r)
            } else {
                St::Expr(l)
            }
        };
        self.need(";")?;
        Ok(s)
    }
    fn want(&mut self, k: &str) -> P<()> {
        if self.kw(k) {
            Ok(())
        } else {
            self.err(format!("{k} expected"))
        }
    }
    pub fn expr(&mut self) -> P<Ex> {
        self.bin(0)
    }
    fn op(&self, lvl: usize) -> Option<&'static str> {
        const L: [&[&str]; 7] = [&["OR"], &["XOR"], &["AND", "&"], &["=", "<>"], &["<", ">", "<=", ">="], &["+", "-"], &["*", "/", "MOD"]];
        match self.peek() {
            Tok::Sym(s) => L[lvl].iter().find(|x| *x == s).map(|x| if *x == "&" { "AND" } else { x }),
            Tok::Id(s) => L[lvl].iter().find(|x| x.eq_ignore_ascii_case(s)).copied(),
            _ => None,
        }
    }
    fn bin(&mut self, lvl: usize) -> P<Ex> {
        if lvl == 7 {
            return self.power();
        }
        let mut l = self.bin(lvl + 1)?;
        while let Some(o) = self.op(lvl) {
            self.bump();
            let r = self.bin(lvl + 1)?;
            l = Ex::Bin(o, Box::new(l), Box::new(r));
        }
        Ok(l)
    }
    fn power(&mut self) -> P<Ex> {
        let mut l = self.unary()?;
        while self.sym("**") {
            let r = self.unary()?;
            l = Ex::Bin("**", Box::new(l), Box::new(r));
        }
        Ok(l)
    }
    fn unary(&mut self) -> P<Ex> {
        if self.sym("-") {
            let e = self.unary()?;
            return Ok(match e {
                Ex::Int(v) => Ex::Int(-v),
                Ex::Real(v) => Ex::Real(-v),
                e => Ex::Neg(Box::new(e)),
            });
        }
        if self.sym("+") {
            return self.unary();
        }
        if self.kw("NOT") {
            return Ok(Ex::Not(Box::new(self.unary()?)));
        }
        if self.sym("&") {
            return Ok(Ex::Addr(Box::new(self.unary()?)));
        }
        self.postfix()
    }
    fn postfix(&mut self) -> P<Ex> {
        let mut e = match self.bump() {
            Tok::Int(v) => Ex::Int(v),
            Tok::Real(v) => Ex::Real(v),
            Tok::Str(s) => Ex::Str(s),
            Tok::Wstr(s) => Ex::Wstr(s),
            Tok::Typed(el, t) => match *t {
                Tok::Int(v) if el.float() => Ex::TReal(el, v as f64),
                Tok::Int(v) => Ex::TInt(el, v),
                Tok::Real(v) => Ex::TReal(el, v),
                Tok::Str(s) | Tok::Wstr(s) => Ex::CharL(el, s),
                _ => return self.err("bad literal"),
            },
            Tok::Id(s) => match s.to_ascii_uppercase().as_str() {
                "TRUE" => Ex::TInt(El::Bool, 1),
                "FALSE" => Ex::TInt(El::Bool, 0),
                _ => Ex::Name(s),
            },
            Tok::Sym("(") => {
                let e = self.expr()?;
                self.need(")")?;
                e
            }
            _ => {
                self.i -= 1;
                return self.err("expression expected");
            }
        };
        loop {
            if self.sym("^") {
                e = Ex::Deref(Box::new(e));
            } else if self.sym("(") {
                let mut args = vec![];
                while !self.sym(")") {
                    let named = matches!(self.peek(), Tok::Id(_)) && matches!(self.peek2(), Tok::Sym(":=") | Tok::Sym("=>"));
                    if named {
                        let n = self.ident()?;
                        let out = matches!(self.bump(), Tok::Sym("=>"));
                        if matches!(self.peek(), Tok::Sym(",") | Tok::Sym(")")) {
                            // omitted
                        } else {
                            args.push(Arg { name: Some(n), out, e: self.expr()? });
                        }
                    } else {
                        args.push(Arg { name: None, out: false, e: self.expr()? });
                    }
                    if !self.sym(",") && !matches!(self.peek(), Tok::Sym(")")) {
                        return self.err(") expected");
                    }
                }
                e = Ex::Call(Box::new(e), args);
            } else if self.sym("[") {
                let mut ix = vec![self.expr()?];
                while self.sym(",") {
                    ix.push(self.expr()?)
                }
                self.need("]")?;
                e = Ex::Index(Box::new(e), ix);
            } else if matches!(self.peek(), Tok::Sym(".")) {
                self.bump();
                match self.bump() {
                    Tok::Int(v) => e = Ex::Bit(Box::new(e), 'X', v as u32),
                    Tok::Id(s) => e = Ex::Field(Box::new(e), s),
                    Tok::Sym("%") => {
                        let s = self.ident()?;
                        let k = s.chars().next().unwrap_or('X').to_ascii_uppercase();
                        match s[1..].parse() {
                            Ok(n) => e = Ex::Bit(Box::new(e), k, n),
                            Err(_) => return self.err("bit access"),
                        }
                    }
                    _ => return self.err("member expected"),
                }
            } else {
                return Ok(e);
            }
        }
    }
}
