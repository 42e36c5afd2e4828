//! Parsing of wgrib2 tables and the code generated from them. This reaches for items the crate does
//! not export (it is a procedural macro); the driver builds without this file if they are gone.
use crate::{s, tab::*};
#[path = "/repo/codegen/src/param_codes.rs"]
mod param_codes;

/// decimal digits of one value
fn dec(x: u32) -> String {
    s::each(x as u64).to_string()
}

crate::harnesses! {
    // parameter codes: 0 three different names, one number of one to three digits; 1 names that may be the same
    fn t_codes(arg) {
        let names = ["TMP", "U-GWD", "U_GWD", "4LFTX"];
        let mut b = vec![];
        let mut want: Vec<(u32, String)> = vec![];
        let mut bad = false;
        let which = if arg == 0 { [0, 4, 8][s::choose(3)] } else { 99 };
        for k in 0..3 {
            let name = if arg == 0 { names[[0, 1, 3][k]] } else { names[s::choose(4)] };
            let mut id = 0u32;
            for f in 0..3 {
                let d = if k * 3 + f == which {
                    let d = digits(1 + s::choose(3), 10);
                    s::assume(d.len() < 3 || d[0] == b'2' || d[1] == b'9');
                    bad |= num(&d) > 255;
                    d
                } else if arg == 0 {
                    vec![b'3' + (k * 3 + f) as u8 % 7]
                } else if f == 2 {
                    vec![b'0' + k as u8 * 3]
                } else if s::choose(2) == 0 {
                    b"255".to_vec()
                } else {
                    b"1".to_vec()
                };
                id = id << 8 | num(&d) as u32 & 255;
                b.extend_from_slice(&d);
                b.extend_from_slice([&b":1:0:255:65535:0:"[..], b":", b":"][f]);
            }
            b.extend_from_slice(name.as_bytes());
            b.extend_from_slice(b":Some thing:K/s\n");
            want.push((id, "_".to_owned() + &name.replace('-', "_")));
        }
        let t = match text(&b).parse::<param_codes::Wgrib2Table>() {
            Ok(t) => t,
            Err(_) => {
                s::check(bad, "a table of wgrib2 is read");
                s::cover(2);
                return;
            }
        };
        s::check(!bad, "disciplines, categories and numbers are below 256");
        let (variants, mapper) = t.enum_variants();
        let (variants, mapper) = (variants.to_string(), mapper.to_string());
        let map: Vec<&str> = mapper.split(" , ").collect();
        s::check(map.len() == 3, "every code is mapped");
        for (m, (id, name)) in map.iter().zip(&want) {
            s::check(m.starts_with(&(dec(*id) + "u32 =>")) && m.ends_with(&("Self :: ".to_owned() + name + ")")), "a code is mapped to the variant of its name");
        }
        let mut seen: Vec<&String> = vec![];
        for (id, name) in &want {
            let n = variants.matches(&(" ".to_owned() + name + " = ")).count();
            s::check(n == 1, "a name is a variant once");
            if !seen.contains(&name) {
                s::check(variants.contains(&(" ".to_owned() + name + " = " + &dec(*id))), "a variant has the value of the first code of its name");
                seen.push(name);
            } else {
                s::cover(3);
            }
        }
        s::check(variants.matches("# [doc").count() == seen.len(), "there is a variant for each name");
        s::cover(1);
    }
    // long tables
    fn t_codes_long(arg) {
        let n = arg as usize;
        // every name for `same` lines that follow one another, or are far apart
        let same = [1, 2, n / 10][s::choose(3)];
        let apart = s::choose(2) == 1;
        let odd = [0, n / 2, n - 1][s::choose(3)];
        let (mut b, mut want, mut bad) = (vec![], vec![], false);
        for k in 0..n {
            let mut of = [k / 100, k % 100 + 100, 255 - k % 256];
            let which = if apart { k % (n / same) } else { k / same };
            let name = "N".to_owned() + &dec(which as u32) + ["", "-X"][which % 2];
            for f in 0..3 {
                let d = if k == odd && f == 2 {
                    let v = [0, 9, 10, 99, 100, 199, 254, 255, 256, 299, 65536][s::choose(11)];
                    bad = v > 255;
                    of[2] = v & 255;
                    dec(v as u32).into_bytes()
                } else {
                    dec(of[f] as u32).into_bytes()
                };
                b.extend_from_slice(&d);
                b.extend_from_slice([&b":1:0:255:65535:0:"[..], b":", b":"][f]);
            }
            b.extend_from_slice(name.as_bytes());
            b.extend_from_slice(b":Some thing:K/s\n");
            want.push(((of[0] << 16 | of[1] << 8 | of[2]) as u32, "_".to_owned() + &name.replace('-', "_")));
        }
        let t = match text(&b).parse::<param_codes::Wgrib2Table>() {
            Ok(t) => t,
            Err(_) => {
                s::check(bad, "a table of wgrib2 is read");
                s::cover(2);
                return;
            }
        };
        s::check(!bad, "disciplines, categories and numbers are below 256");
        let (variants, mapper) = t.enum_variants();
        let (variants, mapper) = (variants.to_string(), mapper.to_string());
        let map: Vec<&str> = mapper.split(" , ").collect();
        s::check(map.len() == n, "every code is mapped");
        for (m, (id, name)) in map.iter().zip(&want) {
            s::check(m.starts_with(&(dec(*id) + "u32 =>")) && m.ends_with(&("Self :: ".to_owned() + name + ")")), "a code is mapped to the variant of its name");
        }
        let mut first: Vec<(u32, String)> = vec![];
        for (k, w) in want.iter().enumerate() {
            if if apart { k < n / same } else { k % same == 0 } {
                first.push(w.clone());
            }
        }
        let mut at = &variants[..];
        for (id, name) in &first {
            let text = " ".to_owned() + name + " = " + &dec(*id);
            match at.find(&text) {
                Some(k) => at = &at[k + text.len()..],
                None => s::check(false, "a variant has the value of the first code of its name"),
            }
        }
        s::check(variants.matches("# [doc").count() == first.len(), "there is a variant for each name");
        s::cover(1);
    }
}
