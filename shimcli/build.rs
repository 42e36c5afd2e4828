//! Copies /repo/cli/src so that main.rs can be the inside of a library: the only changes are
//! that leaving the process is recorded and that standard output and error are kept.
use std::{env, fs, path::Path};

fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let q = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &q);
        } else {
            let s = fs::read_to_string(&p).unwrap();
            fs::write(q, s.lines().filter(|l| !l.starts_with("#![") && !l.starts_with("//!")).collect::<Vec<_>>().join("\n").replace("std::process::exit(", "crate::shim::exit(").replace("process::exit(", "crate::shim::exit(").replace("std::io::std", "io::std").replace("io::stdout()", "crate::shim::Stream(false)").replace("io::stderr()", "crate::shim::Stream(true)")).unwrap();
        }
    }
}

fn main() {
    let src = "/repo/cli/src";
    println!("cargo:rerun-if-changed={src}");
    println!("cargo:rustc-env=CARGO_BIN_NAME=gribber");
    copy(Path::new(src), &Path::new(&env::var("OUT_DIR").unwrap()).join("cli"));
}
