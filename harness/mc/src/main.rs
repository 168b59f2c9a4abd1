#![allow(clippy::all)]
extern crate iec61131std;
mod bf;
mod big;
mod core;
mod ffi;
mod lang;
mod props;
mod sup;
use crate::core::*;

#[global_allocator]
static HEAP: props::res::Heap = props::res::Heap;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("supervise") => sup::supervise(&a[2..]),
        Some("worker") => sup::worker(&a[2..]),
        Some("one") => sup::one(&a[2..]),
        Some("list") => {
            for p in props::all() {
                for t in [Tier::Quick, Tier::Thorough] {
                    for s in (p.spaces)(t) {
                        println!("{} {:?} {} {}", p.id, t, s.name, s.len);
                    }
                }
            }
            0
        }
        Some("syms") => {
            let mut v: Vec<_> = lang::syms().into_keys().collect();
            v.sort();
            println!("{}", v.join(" "));
            0
        }
        _ => {
            eprintln!("usage: mc supervise|worker|one|list");
            2
        }
    };
    std::process::exit(code);
}
