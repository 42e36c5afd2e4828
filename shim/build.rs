// Stand-in for /repo/build.rs: the WMO CSV submodules (def/CCT, def/GRIB2) are not in this
// checkout, so the code tables the real build script generates are replaced by small tables
// whose entries name the table and the code ("4.2.0.1#3"), which makes dispatch observable.
use std::{env, fs, path::Path};

fn table(out: &mut String, name: &str, label: &str) {
    out.push_str(&format!(
        "const {name}: &[&str] = &[\"{label}#0\", \"{label}#1\", \"\", \"{label}#3\"];\n"
    ));
}

fn main() {
    let out_dir = env::var_os("OUT_DIR").unwrap();
    let mut s = String::new();
    table(&mut s, "COMMON_CODE_TABLE_00", "C00");
    table(&mut s, "COMMON_CODE_TABLE_11", "C11");
    fs::write(Path::new(&out_dir).join("cct.rs"), &s).unwrap();
    let mut s = String::new();
    for t in ["0_0", "1_1", "1_2", "1_3", "1_4", "3_1", "4_0", "4_3", "4_4", "4_5", "5_0"] {
        table(&mut s, &format!("CODE_TABLE_{t}"), &t.replace('_', "."));
    }
    for d in [0, 1, 2, 3, 4, 10, 20] {
        table(&mut s, &format!("CODE_TABLE_4_1_{d}"), &format!("4.1.{d}"));
    }
    let cats: &[(u32, &[u32])] = &[
        (0, &[0, 1, 2, 3, 4, 5, 6, 7, 13, 14, 15, 16, 17, 18, 19, 20, 190, 191]),
        (1, &[0, 1, 2]),
        (2, &[0, 3, 4, 5]),
        (3, &[0, 1, 2, 3, 4, 5, 6]),
        (4, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]),
        (10, &[0, 1, 2, 3, 4, 191]),
        (20, &[0, 1, 2]),
    ];
    for (d, cs) in cats {
        for c in *cs {
            table(&mut s, &format!("CODE_TABLE_4_2_{d}_{c}"), &format!("4.2.{d}.{c}"));
        }
    }
    fs::write(Path::new(&out_dir).join("grib2_codeflag.rs"), &s).unwrap();
    println!("cargo:rerun-if-changed=build.rs");
}
