//! Stand-in for the parts of rusty that the repository's integration tests name: programs are executed by
//! the ST executor of this harness instead of being compiled by LLVM.
use inkwell::context::Context;
pub enum ErrorFormat {
    Rich,
}
pub struct CompileOptions {
    pub error_format: ErrorFormat,
    pub optimization: u8,
}
impl Default for CompileOptions {
    fn default() -> Self {
        CompileOptions { error_format: ErrorFormat::Rich, optimization: 0 }
    }
}
#[derive(Clone)]
pub struct SourceCode {
    pub source: String,
    pub path: String,
}
impl From<&str> for SourceCode {
    fn from(s: &str) -> Self {
        SourceCode { source: s.to_string(), path: "test".into() }
    }
}
impl From<String> for SourceCode {
    fn from(s: String) -> Self {
        SourceCode { source: s, path: "test".into() }
    }
}
pub struct FilePath(String);
impl From<String> for FilePath {
    fn from(s: String) -> Self {
        FilePath(s)
    }
}
pub trait SourceContainer {
    fn load_source(self, encoding: Option<()>) -> Result<SourceCode, String>;
}
impl SourceContainer for FilePath {
    fn load_source(self, _: Option<()>) -> Result<SourceCode, String> {
        let source = std::fs::read_to_string(&self.0).map_err(|e| e.to_string())?;
        Ok(SourceCode { source, path: self.0 })
    }
}
pub struct CodeGen {
    pub module: inkwell::Module,
}
pub fn compile_module(_: &Context, src: Vec<SourceCode>, _: Vec<SourceCode>, _: Option<()>, _: &CompileOptions) -> Result<((), CodeGen), String> {
    Ok(((), CodeGen { module: inkwell::Module(src.into_iter().map(|s| (s.path, s.source)).collect()) }))
}
pub mod runner {
    use super::SourceCode;
    use inkwell::execution_engine::ExecutionEngine;
    use st::*;
    pub trait Compilable {
        fn containers(self) -> Vec<SourceCode>;
    }
    impl Compilable for &str {
        fn containers(self) -> Vec<SourceCode> {
            vec![self.into()]
        }
    }
    impl Compilable for String {
        fn containers(self) -> Vec<SourceCode> {
            vec![self.into()]
        }
    }
    impl Compilable for SourceCode {
        fn containers(self) -> Vec<SourceCode> {
            vec![self]
        }
    }
    impl Compilable for Vec<SourceCode> {
        fn containers(self) -> Vec<SourceCode> {
            self
        }
    }
    #[repr(C)]
    pub struct MainType {
        a: [usize; 1000],
    }
    impl Default for MainType {
        fn default() -> Self {
            MainType { a: [0; 1000] }
        }
    }
    fn go<U>(e: &ExecutionEngine, name: &str, params: *mut u8, given: bool) -> U {
        let map = e.map.borrow();
        let p = Program::build(&e.sources, &|n| map.get(n).copied().unwrap_or(0)).expect("build");
        let i = *p.index.get(&name.to_ascii_uppercase()).expect("no main");
        let u = &p.pous[i];
        let mut vm = Vm::new(&p);
        let mut buf = vec![0u64; std::mem::size_of::<U>() / 8 + 1024];
        let ub = buf.as_mut_ptr() as *mut u8;
        let a1 = [params as u64];
        vm.regions.push((params as usize, 1 << 12));
        if u.kind == Kind::Function {
            let text = matches!(u.ret, Ty::Str(_) | Ty::Wstr(_));
            let out = if !text {
                std::ptr::null_mut()
            } else if given {
                params
            } else {
                ub
            };
            match vm.run(i, if !text && u.params.len() == 1 { &a1 } else { &[] }, out) {
                Ok(v) => {
                    if !text {
                        buf[0] = v
                    }
                }
                Err(f) => fail(f),
            }
        } else if let Err(f) = vm.cycle(i, params) {
            fail(f)
        }
        unsafe { (buf.as_ptr() as *const U).read_unaligned() }
    }
    fn fail(f: Fault) -> ! {
        eprintln!("EXECUTOR: {f:?}");
        panic!("{f:?}")
    }
    pub fn run<T, U>(e: &ExecutionEngine, name: &str, params: &mut T) -> U {
        go(e, name, params as *mut T as *mut u8, true)
    }
    pub fn run_no_param<U>(e: &ExecutionEngine, name: &str) -> U {
        let mut m = MainType::default();
        go(e, name, &mut m as *mut MainType as *mut u8, false)
    }
}
