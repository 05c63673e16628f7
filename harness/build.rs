use std::{env, path::PathBuf, process::Command};
fn main() {
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let o = out.join("intr.o");
    let a = out.join("libintr.a");
    assert!(Command::new("gcc").args(["-O1", "-c", "cstub/intr.c", "-o"]).arg(&o).status().unwrap().success());
    let _ = std::fs::remove_file(&a);
    assert!(Command::new("ar").arg("crs").arg(&a).arg(&o).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static=intr");
    println!("cargo:rerun-if-changed=cstub/intr.c");
}
