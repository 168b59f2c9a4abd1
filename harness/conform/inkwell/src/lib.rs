//! Stand-in for the parts of inkwell that the repository's integration tests name.
pub mod context {
    pub struct Context;
    impl Context {
        pub fn create() -> Context {
            Context
        }
    }
}
pub mod execution_engine {
    use std::cell::RefCell;
    use std::collections::HashMap;
    /// sources to run and the addresses of the library's symbols
    pub struct ExecutionEngine {
        pub sources: Vec<(String, String)>,
        pub map: RefCell<HashMap<String, usize>>,
    }
    impl ExecutionEngine {
        pub fn add_global_mapping(&self, v: &super::Named, addr: usize) {
            self.map.borrow_mut().insert(v.0.clone(), addr);
        }
    }
}
pub mod targets {
    #[derive(Default)]
    pub struct InitializationConfig;
    pub struct Target;
    impl Target {
        pub fn initialize_native(_: &InitializationConfig) -> Result<(), String> {
            Ok(())
        }
    }
}
pub enum OptimizationLevel {
    None,
}
pub struct Named(pub String);
pub struct Module(pub Vec<(String, String)>);
impl Module {
    pub fn print_to_stderr(&self) {}
    pub fn get_function(&self, n: &str) -> Option<Named> {
        Some(Named(n.to_string()))
    }
    pub fn get_global(&self, n: &str) -> Option<Named> {
        Some(Named(n.to_string()))
    }
    pub fn create_jit_execution_engine(&self, _: OptimizationLevel) -> Result<execution_engine::ExecutionEngine, String> {
        Ok(execution_engine::ExecutionEngine { sources: self.0.clone(), map: Default::default() })
    }
}
