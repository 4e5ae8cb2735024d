//! Dumps the type-checked, monomorphised program of one crate as JSON: MIR bodies with resolved
//! callees, types, evaluated constants, items with their visibility, and trait implementations.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_abi;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;


fn main() {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let args: Vec<String> = std::env::args().collect();
    let res = run_with_tcx!(&args, move |tcx| {
        let v = dump::dump(tcx);
        let mut s = String::new();
        v.write(&mut s);
        std::fs::write(&out, s).unwrap();
        ControlFlow::<(), ()>::Continue(())
    });
    if let Err(e) = res {
        eprintln!("mirdump: {:?}", e);
        std::process::exit(3);
    }
}
