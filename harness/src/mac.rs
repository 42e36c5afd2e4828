//! The code generated by the parameter code macro. The driver builds without this file if the code
//! does not compile.
use crate::{s, tab::*};

#[grib_codegen::parameter_codes(path = "/verif/harness/data/codes")]
#[derive(Debug)]
#[repr(u32)]
enum Codes {}

crate::harnesses! {
    // the enum the macro makes from a table, for every 32-bit code
    fn t_macro(arg) {
        let v = s::u32();
        let mut want: Option<(u32, String)> = None;
        let mut first: Vec<(String, u32)> = vec![];
        for l in include_str!("../data/codes").lines() {
            let w: Vec<&str> = l.split(':').collect();
            let n = |k: usize| num(w[k].as_bytes()) as u32;
            let (id, name) = (n(0) * 65536 + n(6) * 256 + n(7), "_".to_owned() + &w[8].replace('-', "_"));
            let at = first.iter().position(|f| f.0 == name).unwrap_or_else(|| {
                first.push((name.clone(), id));
                first.len() - 1
            });
            if v == id {
                want = Some((first[at].1, name));
            }
        }
        match (Codes::try_from(v), want) {
            (Ok(c), Some((id, name))) => {
                s::check(format!("{:?}", c) == name, "a code stands for the variant of its name");
                s::check(c as u32 == id, "a variant has the value of the first code of its name");
                s::cover(1);
            }
            (got, want) => {
                s::check(got.is_err() && want.is_none(), "codes of the table are variants and no others");
                s::cover(2);
            }
        }
    }
}
