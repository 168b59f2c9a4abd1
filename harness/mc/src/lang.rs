//! The declared (Structured Text) half of the library: sources are read from the tree under test at run time,
//! lowered together with client programs, and executed; external declarations call the exported symbols.
use st::{Fault, Program, Vm};
use std::collections::HashMap;
mod table {
    include!(concat!(env!("OUT_DIR"), "/st_table.rs"));
}
/// What the stand-ins of symbols the library no longer exports end in (see build.rs and `check`).
#[no_mangle]
extern "C-unwind" fn mc_not_exported() -> ! {
    panic!("not exported by the library")
}
#[used]
static KEEP: extern "C-unwind" fn() -> ! = mc_not_exported;
pub const DIR: &str = "/repo/iec61131-st";
pub fn syms() -> HashMap<&'static str, usize> {
    let t = table::table();
    table::NAMES.iter().enumerate().map(|(i, n)| (*n, t[i + 1])).filter(|(_, a)| *a != 0).collect()
}
pub fn sources() -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let Ok(d) = std::fs::read_dir(DIR) else { return v };
    for e in d.flatten() {
        let p = e.path();
        if p.extension().map_or(false, |e| e == "st") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                let n = p.file_name().unwrap().to_string_lossy().into_owned();
                // a file this front end cannot read is left out: what it declares is then unknown
                if st::parse(&n, &s).is_ok() {
                    v.push((n, s));
                }
            }
        }
    }
    v.sort();
    v
}
/// The library plus a client program. `None`: the sources cannot be read by this front end.
pub fn program(client: &str) -> Option<&'static Program> {
    let mut src = sources();
    src.push(("client".into(), client.into()));
    let sy = syms();
    match Program::build(&src, &|n| sy.get(n).copied().unwrap_or(0)) {
        Ok(p) => Some(Box::leak(Box::new(p))),
        Err(e) => {
            eprintln!("ST: {e}");
            None
        }
    }
}
/// A client program and a machine to run it on.
pub struct Run {
    pub p: &'static Program,
    pub vm: Vm<'static>,
}
impl Run {
    pub fn new(client: &str) -> Option<Run> {
        let p = program(client)?;
        Some(Run { p, vm: Vm::new(p) })
    }
}
pub enum Out {
    Val(u64),
    /// the library aborted
    Abort,
    /// no defined outcome
    Bad(String),
    /// not modelled by this front end
    Skip,
}
impl Run {
    pub fn index(&self, f: &str) -> Option<usize> {
        let i = *self.p.index.get(&f.to_ascii_uppercase())?;
        let u = &self.p.pous[i];
        if u.err.is_some() || u.body.is_err() {
            if std::env::var("ST_TRACE").is_ok() {
                eprintln!("ST: {f}: {:?} {:?}", u.err, u.body.as_ref().err());
            }
            return None;
        }
        Some(i)
    }
    pub fn call(&mut self, i: usize, args: &[u64], out: *mut u8) -> Out {
        let vm = &mut self.vm;
        match crate::core::tri(|| vm.run(i, args, out)) {
            None if vm.overrun() => Out::Bad("a call wrote past the end of a text variable and then aborted".into()),
            None => Out::Abort,
            Some(Ok(v)) => Out::Val(v),
            Some(Err(Fault::Bad(s))) => Out::Bad(s),
            Some(Err(Fault::Unsupported(s))) => {
                if std::env::var("ST_TRACE").is_ok() {
                    eprintln!("ST: {s}");
                }
                Out::Skip
            }
        }
    }
    pub fn cycle(&mut self, i: usize, inst: *mut u8) -> Out {
        let vm = &mut self.vm;
        match crate::core::tri(|| vm.cycle(i, inst)) {
            None => Out::Abort,
            Some(Ok(())) => Out::Val(0),
            Some(Err(Fault::Bad(s))) => Out::Bad(s),
            Some(Err(Fault::Unsupported(_))) => Out::Skip,
        }
    }
}
