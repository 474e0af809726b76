use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{}/sym_rt.o", out);
    let a = format!("{}/libsymrt.a", out);
    assert!(Command::new("gcc").args(["-O1", "-c", "rt/sym_rt.c", "-o", &o]).status().unwrap().success());
    let _ = std::fs::remove_file(&a);
    assert!(Command::new("ar").args(["crs", &a, &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=symrt");
    println!("cargo:rerun-if-changed=rt/sym_rt.c");
}
