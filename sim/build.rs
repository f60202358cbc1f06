//! Compiles src/atomics.c (the only file that must stay outside the compiler's instrumentation).
use std::{env, path::Path, process::Command};
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let o = Path::new(&out).join("atomics.o");
    println!("cargo:rerun-if-changed=src/atomics.c");
    println!("cargo:rerun-if-changed=build.rs");
    let s = Command::new("cc").args(["-O2", "-fPIC", "-Wall", "-c", "src/atomics.c", "-o"]).arg(&o).status().expect("cc");
    assert!(s.success());
    println!("cargo:rustc-link-arg-bins={}", o.display());
}
