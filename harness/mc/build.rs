//! Emits a table `name -> address` of every symbol the declared (ST) half of the library refers to: external
//! functions, function blocks and globals, and every instantiation of its generic functions. The references
//! are weak, so that a symbol the library does not export is 0 instead of a link error.
use std::collections::BTreeSet;
use std::fmt::Write;
const DIR: &str = "/repo/iec61131-st";
fn main() {
    println!("cargo:rerun-if-changed={DIR}");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=MC_MISSING");
    let mut names = BTreeSet::new();
    let mut els: Vec<&str> = st::El::ALL.iter().map(|e| e.name()).collect();
    els.extend(["STRING", "WSTRING"]);
    let mut files: Vec<_> = std::fs::read_dir(DIR).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        println!("cargo:rerun-if-changed={}", f.display());
        if f.extension().map_or(true, |e| e != "st") {
            continue;
        }
        let Ok(src) = std::fs::read_to_string(&f) else { continue };
        let Ok(u) = st::parse(&f.to_string_lossy(), &src) else { continue };
        for g in u.globals {
            if g.external {
                names.insert(g.v.name);
            }
        }
        for p in u.pous {
            if p.generics.is_empty() {
                if p.external {
                    names.insert(p.name);
                }
                continue;
            }
            let mut v = vec![p.name.clone()];
            for _ in &p.generics {
                v = v.iter().flat_map(|n| els.iter().map(move |e| format!("{n}__{e}"))).collect();
            }
            names.extend(v);
        }
    }
    let names: Vec<_> = names.into_iter().filter(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')).collect();
    let mut o = String::new();
    writeln!(o, "pub static NAMES: &[&str] = &{names:?};").unwrap();
    let mut a = String::from(".pushsection .data.rel.ro.st_table,\"aw\",@progbits\n.balign 8\n.globl st_table\nst_table:\n.quad 0\n");
    let missing = std::env::var("MC_MISSING").unwrap_or_default();
    let missing: BTreeSet<&str> = missing.split_whitespace().collect();
    for n in &names {
        if missing.contains(n.as_str()) {
            a.push_str(".quad 0\n");
        } else {
            write!(a, ".weak {n}\n.quad {n}\n").unwrap();
        }
    }
    a.push_str(".popsection\n");
    // stand-ins for what the harness calls and the library does not export (see `check`)
    for n in missing {
        write!(a, ".pushsection .text\n.globl {n}\n{n}: jmp mc_not_exported\n.popsection\n").unwrap();
    }
    writeln!(o, "core::arch::global_asm!({a:?}, options(att_syntax));").unwrap();
    writeln!(o, "extern \"C\" {{ static st_table: [usize; {}]; }}", names.len() + 1).unwrap();
    writeln!(o, "pub fn table() -> &'static [usize] {{ unsafe {{ &*core::ptr::addr_of!(st_table) }} }}").unwrap();
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("st_table.rs"), o).unwrap();
}
