//! The command line tool: arguments and file in, text and exported file out.
use crate::{s, util::*};
use grib::{from_slice, Grib2SubmessageDecoder};
use gribber::shim::{run, Ran};

fn go(args: &[&str]) -> Ran {
    run(&args.iter().map(|x| x.to_string()).collect::<Vec<_>>())
}
fn put(b: &[u8]) {
    if std::fs::write("in.grib", b).is_err() {
        unreachable!()
    }
}
fn exported() -> Option<Vec<u8>> {
    std::fs::read("out.bin").ok()
}
/// a terminal of `height` lines; how often a pager was started before
fn terminal(height: u16) -> u32 {
    *console::TERM.lock().unwrap() = (false, height, false);
    *pager::STARTED.lock().unwrap()
}
/// the pager is for texts longer than the terminal; the empty line after the last item does not count
fn paged(before: u32, height: u16, out: &str) {
    let mut n = out.lines().count();
    if out.ends_with("\n\n") {
        n -= 1;
    }
    let started = *pager::STARTED.lock().unwrap() - before;
    s::check(started == (n > height as usize) as u32, "a pager is started exactly for texts longer than the terminal");
}

/// Sections 3 to 7 of three points with 8-bit values
fn layer(m: &mut Msg, v: &[u8]) {
    let n = v.len() as u8;
    m.sect(3, &[0, 0, 0, 0, n, 0, 0, 0, 99]).sect(4, &[0, 0, 0, 99]);
    m.sect(5, &[0, 0, 0, n, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0]);
    m.sect(6, &[255]).sect(7, v);
}

fn field(w: &mut std::str::SplitWhitespace, want: &str, what: &'static str) {
    s::check(w.next() == Some(want), what);
}

crate::harnesses! {
    // decode: any text of `arg` characters as the index; files with submessages 0.0, 0.1 and 1.0
    fn x_index(arg) {
        let b = s::bytes(arg as usize);
        for x in &b {
            s::assume(*x >= 0x20 && *x < 0x7f);
        }
        s::assume(b.is_empty() || b[0] != b'-');
        // digits before or after
        let mut t = match s::choose(4) {
            0 => b"1844674407370955161".to_vec(),
            1 => "\u{ff13}".as_bytes().to_vec(),
            _ => vec![],
        };
        t.extend_from_slice(&b);
        if s::choose(2) == 1 {
            t.extend_from_slice(b"\n");
        }
        let mut m = Msg::begin(vec![], 0);
        m.sect(1, &[0; 16]);
        layer(&mut m, &[1, 2, 3]);
        layer(&mut m, &[4, 5]);
        let mut m = Msg::begin(m.end().0, 0);
        m.sect(1, &[0; 16]);
        layer(&mut m, &[6]);
        put(&m.end().0);
        let text = match std::str::from_utf8(&t) {
            Ok(x) => x,
            Err(_) => unreachable!(),
        };
        let r = go(&["decode", "in.grib", text, "-l", "out.bin"]);
        // digits, a full stop, digits
        let dot = t.iter().position(|x| *x == b'.');
        let digits = |d: &[u8]| !d.is_empty() && d.iter().all(|x| x.is_ascii_digit());
        // as far as it matters which one
        let num = |d: &[u8]| d.iter().fold(0u8, |a, x| (a * 10 + (*x - b'0')).min(2));
        let mut want = None;
        let mut index = false;
        if let Some(k) = dot {
            if digits(&t[..k]) && digits(&t[k + 1..]) {
                index = true;
                want = match (num(&t[..k]), num(&t[k + 1..])) {
                    (0, 0) => Some(vec![1u8, 2, 3]),
                    (0, 1) => Some(vec![4, 5]),
                    (1, 0) => Some(vec![6]),
                    _ => None,
                };
            }
        }
        s::check(r.ok == want.is_some(), "decode accepts exactly the indices N.M of submessages of the file");
        match want {
            Some(w) => {
                let mut e = vec![];
                for x in w {
                    e.extend_from_slice(&(x as f32).to_le_bytes());
                }
                s::check(exported().as_deref() == Some(&e[..]), "decode exports the values of the submessage with that index");
                s::check(r.out.is_empty() && r.err.is_empty(), "exporting prints nothing");
                s::cover(1);
            }
            None => {
                s::check(r.out.is_empty() && r.err.starts_with("error: ") && r.err.ends_with('\n'), "wrong indices are reported");
                s::check(exported().is_none(), "nothing is exported for a wrong index");
                s::cover(if index { 2 } else { 3 });
            }
        }
    }
    // decode: exported files hold the decoded values
    fn x_export(arg) {
        let n = arg as usize;
        let mut m = Msg::begin(vec![], 0);
        m.sect(1, &[0; 16]);
        layer(&mut m, &[1, 2, 3]);
        let np = n as u8;
        m.sect(3, &[0, 0, 0, 0, np, 0, 0, 0, 99]).sect(4, &[0, 0, 0, 99]);
        let set = s::choose(1 << n);
        let map = s::choose(2) == 1;
        let k = if map { (set as u32).count_ones() as usize } else { n };
        let mut s5 = vec![0, 0, 0, k as u8, 0, 0];
        s5.extend_from_slice(&s::bytes(8));
        s5.extend_from_slice(&[8, 0]);
        m.sect(5, &s5);
        m.sect(6, &if map { vec![0, (set << (8 - n)) as u8] } else { vec![255] });
        let d = s::bytes(k + s::choose(2));
        let short = s::choose(2) == 1 && !d.is_empty() && d.len() == k;
        m.sect(7, &d[..d.len() - short as usize]);
        let b = m.end().0;
        put(&b);
        // an earlier file may be there
        if s::choose(2) == 1 && std::fs::write("out.bin", [7; 40]).is_err() {
            unreachable!()
        }
        let old = exported();
        let big = s::choose(2) == 1;
        let r = match (big, s::choose(2)) {
            (true, 0) => go(&["decode", "-b", "out.bin", "in.grib", "0.1"]),
            (true, _) => go(&["decode", "in.grib", "0.1", "--big-endian", "out.bin"]),
            (_, 0) => go(&["decode", "in.grib", "-l", "out.bin", "0.1"]),
            _ => go(&["decode", "--little-endian", "out.bin", "in.grib", "0.1"]),
        };
        let g = match from_slice(&b) {
            Ok(g) => g,
            Err(_) => {
                s::check(false, "a well-formed message is accepted");
                unreachable!()
            }
        };
        let (_, sm) = g.iter().nth(1).unwrap();
        let v = Grib2SubmessageDecoder::from(sm).and_then(|d| d.dispatch().map(|v| v.collect::<Vec<_>>()));
        match v {
            Ok(v) => {
                s::check(r.ok && r.out.is_empty(), "decodable data is exported");
                let out = match exported() {
                    Some(x) => x,
                    None => {
                        s::check(false, "decodable data is exported");
                        unreachable!()
                    }
                };
                s::check(out.len() == 4 * v.len(), "the exported file has four octets for each value");
                for k in 0..v.len() {
                    let w = if big { v[k].to_be_bytes() } else { v[k].to_le_bytes() };
                    for j in 0..4 {
                        s::check(out[4 * k + j] == w[j], "the exported file has the values in order in the byte order asked for");
                    }
                }
                s::cover(1);
            }
            Err(_) => {
                s::check(!r.ok && r.out.is_empty() && r.err.starts_with("error: "), "data that cannot be decoded is reported");
                s::check(exported() == old, "nothing is exported for data that cannot be decoded");
                s::cover(2);
            }
        }
    }
    // decode: files that cannot be written; 2047 to 2050 values fill a buffer
    // decode: one of `arg` submessages
    fn x_many(arg) {
        let n = arg as usize;
        let (count, parts) = [(n, 1), (1, n), (n / 10, 10)][s::choose(3)];
        let mut all = vec![];
        for k in 0..count {
            let mut m = Msg::begin(all, 0);
            m.sect(1, &[0; 16]);
            for j in 0..parts {
                layer(&mut m, &[(k + 1) as u8, ((k + 1) >> 8) as u8, (j + 1) as u8, ((j + 1) >> 8) as u8]);
            }
            all = m.end().0;
        }
        put(&all);
        let near = |n: usize| [0, 1, 9, 10, 99, 100, 255, 256, n - 1, n][s::choose(10)].min(n);
        let (i, j) = (near(count), near(parts));
        let r = go(&["decode", "in.grib", &format!("{i}.{j}"), "-b", "out.bin"]);
        if i == count || j == parts {
            s::check(!r.ok && exported().is_none(), "an index that is not there is reported");
            s::cover(2);
            return;
        }
        s::check(r.ok && r.err.is_empty(), "decodable data is exported");
        let want: Vec<u8> = [(i + 1) & 255, (i + 1) >> 8, (j + 1) & 255, (j + 1) >> 8].iter().flat_map(|x| (*x as f32).to_be_bytes()).collect();
        s::check(exported() == Some(want), "the submessage of the index is exported");
        s::cover(1);
    }
    // decode: `arg` values, one of them any octet
    fn x_long(arg) {
        let n = arg as usize;
        let mut d: Vec<u8> = (0..n).map(|k| (k * 7 + k / 251) as u8).collect();
        d[[0, n / 2, n - 1][s::choose(3)]] = s::u8();
        let mut m = Msg::begin(vec![], 0);
        let c = (n as u32).to_be_bytes();
        m.sect(1, &[0; 16]).sect(3, &[0, c[0], c[1], c[2], c[3], 0, 0, 0, 99]).sect(4, &[0, 0, 0, 99]);
        m.sect(5, &[c[0], c[1], c[2], c[3], 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0]);
        m.sect(6, &[255]).sect(7, &d);
        put(&m.end().0);
        let big = s::choose(2) == 1;
        let r = go(&["decode", "in.grib", "0.0", ["-l", "-b"][big as usize], "out.bin"]);
        s::check(r.ok && r.err.is_empty(), "decodable data is exported");
        let out = exported().unwrap_or_default();
        s::check(out.len() == 4 * n, "the exported file has four octets for each value");
        for k in 0..n {
            let x = [out[4 * k], out[4 * k + 1], out[4 * k + 2], out[4 * k + 3]];
            let x = if big { f32::from_be_bytes(x) } else { f32::from_le_bytes(x) };
            s::check(x == d[k] as f32, "the exported file has the values in order");
        }
        s::cover(1);
    }
    fn x_full(arg) {
        let n = [1u16, 2, 2047, 2048, 2049, 2050, 4096][s::choose(7)];
        let r = s::arr::<4>();
        s::assume(r[0] & 0x7f < 0x7f);
        let mut m = Msg::begin(vec![], 0);
        m.sect(1, &[0; 16]);
        let c = n.to_be_bytes();
        m.sect(3, &[0, 0, 0, c[0], c[1], 0, 0, 0, 99]).sect(4, &[0, 0, 0, 99]);
        m.sect(5, &[0, 0, c[0], c[1], 0, 0, r[0], r[1], r[2], r[3], 0, 0, 0, 0, 0, 0]);
        m.sect(6, &[255]).sect(7, &[]);
        put(&m.end().0);
        let to = s::choose(3);
        let r = go(&["decode", "in.grib", "0.0", ["-l", "-b"][s::choose(2)], ["out.bin", "/dev/full", "none/out.bin"][to]]);
        if to == 0 {
            s::check(r.ok && r.err.is_empty(), "decodable data is exported");
            s::check(exported().map_or(0, |x| x.len()) == 4 * n as usize, "the exported file has four octets for each value");
            s::cover(1);
        } else {
            s::check(!r.ok && r.err.starts_with("error: "), "a file that cannot be written is reported");
            s::check(exported().is_none(), "nothing is exported elsewhere");
            s::cover(2);
        }
    }
    // decode: text with coordinates
    fn x_text(arg) {
        let mut m = Msg::begin(vec![], 0);
        m.sect(1, &[0; 16]);
        let grid = s::choose(4);
        // 2 by 2 points, latitudes 10 and -5.5, longitudes 0.25 and 1
        let mut s3 = vec![0, 0, 0, 0, 4, 0, 0, 0, if grid == 1 { 99 } else { 0 }];
        s3.extend_from_slice(&[6; 16]);
        s3.extend_from_slice(&[0, 0, 0, 2, 0, 0, 0, 2, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff]);
        s3.extend_from_slice(&10_000_000u32.to_be_bytes());
        s3.extend_from_slice(&250_000u32.to_be_bytes());
        s3.push(0x30);
        s3.extend_from_slice(&(5_500_000u32 | 1 << 31).to_be_bytes());
        s3.extend_from_slice(&1_000_000u32.to_be_bytes());
        s3.extend_from_slice(&[0; 8]);
        // unsupported scanning mode; number of points that does not fit
        s3.push(if grid == 2 { 1 } else { 0 });
        let n = if grid == 3 { 3 } else { 4 };
        s3[4] = n as u8;
        m.sect(3, &s3).sect(4, &[0, 0, 0, 99]);
        let shift = s::choose(2);
        m.sect(5, &[0, 0, 0, n as u8 - 1, 0, 0, 0x3f, 0, 0, 0, 0, shift as u8, 0, shift as u8, 8, 0]);
        m.sect(6, &[0, 0xb0]);
        let x = [0u8, 7, 200];
        m.sect(7, &x[..if n == 4 { 3 } else { 2 }]);
        put(&m.end().0);
        let height = [1, n as u16, n as u16 + 1, n as u16 + 2][s::choose(4)];
        let p = terminal(height);
        let r = go(&["decode", "in.grib", "0.0"]);
        if grid == 3 {
            s::check(!r.ok && r.out.is_empty() && r.err.starts_with("error: "), "a grid with another number of points is reported");
            s::cover(2);
            return;
        }
        s::check(r.ok && r.err.is_empty(), "decodable data is printed");
        let mut lines = r.out.lines();
        let head: Vec<&str> = lines.next().unwrap_or("").split_whitespace().collect();
        s::check(head == ["Latitude", "Longitude", "Value"], "the first line has the headings");
        let scale = if shift == 1 { 0.1 } else { 1.0 };
        let mul = if shift == 1 { 2.0 } else { 1.0 };
        let values = [Some((0.5 + 0.0 * mul) * scale), None, Some((0.5 + 7.0 * mul) * scale), Some((0.5 + 200.0 * mul) * scale)];
        let places = [("10.000000", "0.250000"), ("10.000000", "1.000000"), ("-5.500000", "0.250000"), ("-5.500000", "1.000000")];
        for k in 0..4 {
            let l = lines.next().unwrap_or("");
            let w: Vec<&str> = l.split_whitespace().collect();
            s::check(w.len() == 3, "a line has latitude, longitude and value");
            let place = if grid == 0 { places[k] } else { ("NaN", "NaN") };
            s::check((w[0], w[1]) == place, "a line has the coordinates of its point, or NaN");
            let v: f64 = w[2].parse().unwrap_or(-1e9);
            s::check(match values[k] { Some(x) => (v - x).abs() <= 1e-5 * x, None => w[2] == "NaN" }, "a line has the value of its point");
        }
        s::check(lines.next().is_none(), "there is a line for every point");
        paged(p, height, &r.out);
        s::cover(1);
    }
    // files that are missing, empty, no GRIB data or cut off, for every command
    fn x_bad(arg) {
        let mut m = Msg::begin(vec![], 0);
        m.sect(1, &[7, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0]);
        layer(&mut m, &[1, 2, 3]);
        let b = m.end().0;
        match s::choose(4) {
            0 => {}
            1 => put(&s::bytes(s::choose(20))),
            2 => put(&b[..b.len() - 1 - s::choose(60)]),
            _ => {
                let mut b = b;
                b[7] = s::u8();
                s::assume(b[7] != 2);
                put(&b);
            }
        }
        let cmd: &[&str] = [&["list", "in.grib"] as &[&str], &["list", "-d", "in.grib"], &["inspect", "in.grib"], &["info", "in.grib"], &["decode", "in.grib", "0.0"]][s::choose(5)];
        let r = go(cmd);
        s::check(!r.ok && r.out.is_empty() && r.err.starts_with("error: ") && r.err.len() > 8, "files that cannot be read as GRIB2 are reported");
        s::cover(1);
    }
    // inspect: sections, submessages and templates of up to `arg` messages
    // (`arg` 0: of one message with any template numbers)
    fn y_inspect(arg) {
        // from 100 on: so many submessages
        let big = arg >= 100;
        let mut all = vec![0u8; if big { [0, 70000][s::choose(2)] } else { s::choose(2) }];
        let n = arg as usize;
        let many = if big { [(n, 1), (1, n), (n / 10, 10)][s::choose(3)] } else { (0, 0) };
        let mut sects = vec![];
        // (message, submessage, indices of sections 2 to 7, templates)
        let mut subs: Vec<(usize, usize, [Option<usize>; 6], [u16; 3])> = vec![];
        let mut t = [[0u16, 9, 2], [99, 258, 0xffff]][if arg == 0 { 0 } else { s::choose(2) }];
        if arg == 0 {
            t[s::choose(3)] = u16::from_be_bytes(s::arr());
        }
        for k in 0..if big { many.0 } else if arg == 0 { 1 } else { 1 + s::choose(arg as u8) } {
            let mut m = Msg::begin(all, 0);
            let base = sects.len();
            let mut at = [None; 6];
            m.sect(1, &[0; 16]);
            for j in 0..1 + if big { many.1 - 1 } else if arg == 0 { 0 } else { s::choose(2) } {
                let from = if big { (j + k) % if j == 0 { 2 } else { 3 } } else if j == 0 { s::choose(2) } else { s::choose(3) };
                for n in from..6 {
                    at[n] = Some(base + m.sects.len());
                    let t = |k: usize| t[k].to_be_bytes();
                    match n {
                        0 => m.sect(2, &[1, 2]),
                        1 => m.sect(3, &[0, 0, 0, 0, 0, 0, 0, t(0)[0], t(0)[1]]),
                        2 => m.sect(4, &[0, 0, t(1)[0], t(1)[1]]),
                        3 => m.sect(5, &[0, 0, 0, 0, t(2)[0], t(2)[1]]),
                        4 => m.sect(6, &[255]),
                        _ => m.sect(7, &[]),
                    };
                }
                subs.push((k, j, at, t));
            }
            let e = m.end();
            all = e.0;
            sects.extend(e.1);
        }
        put(&all);
        // the templates go through a hash table
        let what = if big { [7, 1, 2][s::choose(3)] } else { s::choose(if arg == 0 { 4 } else { 8 }) };
        s::assume(arg > 0 || what > 0);
        let mut args = vec!["inspect"];
        for (k, o) in [(0, ["-s", "--sections"]), (1, ["-m", "--submessages"]), (2, ["-t", "--templates"])] {
            if what >> k & 1 != 0 {
                args.push(o[arg as usize % 2]);
            }
        }
        args.push("in.grib");
        let what = if what == 0 { 7 } else { what };
        let mut lines: Vec<String> = vec![];
        let heads = what & (what - 1) != 0;
        let dash = |x: Option<usize>| x.map_or("-".to_owned(), |x| x.to_string());
        for k in 0..3 {
            if what >> k & 1 == 0 {
                continue;
            }
            if !lines.is_empty() {
                lines.push(String::new());
            }
            if heads {
                lines.push(["Sections:", "SubMessages:", "Templates:"][k].to_owned());
            }
            match k {
                0 => {
                    for (i, (n, off, size)) in sects.iter().enumerate() {
                        lines.push(format!("{i} │ {off:016x} - {:016x} │ Section {n}", off + size));
                    }
                }
                1 => {
                    lines.push("id │ S2 S3 S4 S5 S6 S7 │ Tmpl3 Tmpl4 Tmpl5".to_owned());
                    for (i, j, at, t) in &subs {
                        let at: Vec<String> = at.iter().map(|x| dash(*x)).collect();
                        lines.push(format!("{i}.{j} │ {} │ 3.{} 4.{} 5.{}", at.join(" "), t[0], t[1], t[2]));
                    }
                }
                _ => {
                    for (n, table, t) in [(3, "3.1", t[0]), (4, "4.0", t[1]), (5, "5.0", t[2])] {
                        lines.push(format!("{n}.{t} - {}", crate::prod::shown(Some(table), t as usize)).trim_end().to_owned());
                    }
                }
            }
        }
        let height = (lines.len() + s::choose(3) - 1) as u16;
        let p = terminal(height);
        let r = go(&args);
        s::check(r.ok && r.err.is_empty(), "files of valid messages are inspected");
        let got: Vec<String> = r.out.lines().map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).collect();
        s::check(got.len() == lines.len(), "inspect prints a line for every item asked for");
        for (a, b) in got.iter().zip(&lines) {
            s::check(a == b, "inspect shows the sections, submessages and templates of the file");
        }
        paged(p, height, &r.out);
        s::cover(1);
    }
    // list: any numbers of points
    fn y_points(arg) {
        let mut m = Msg::begin(vec![], 0);
        m.sect(1, &[0; 16]);
        let mut n = s::arr::<4>();
        let mut k = s::arr::<4>();
        if arg == 1 {
            // known grids and numbers
            n = [3u32, 1000, u32::MAX][s::choose(3)].to_be_bytes();
            k = [0u32, 3, 999, u32::MAX][s::choose(4)].to_be_bytes();
        }
        m.sect(3, &[0, n[0], n[1], n[2], n[3], 0, 0, 0, 99]).sect(4, &[0, 0, 0, 99]);
        m.sect(5, &[k[0], k[1], k[2], k[3], 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0]);
        m.sect(6, &[255]).sect(7, &[]);
        put(&m.end().0);
        let r = go(&["list", "in.grib"]);
        s::check(r.ok && r.err.is_empty(), "files of valid messages are listed");
        let l: Vec<&str> = r.out.lines().collect();
        s::check(l.len() == 2, "list prints a line for every submessage");
        if arg == 1 {
            let (n, k) = (u32::from_be_bytes(n), u32::from_be_bytes(k));
            let last: String = l[1].split('│').last().unwrap_or("").split_whitespace().collect::<Vec<_>>().join(" ");
            if k <= n {
                s::check(last == format!("{}/ {n} unknown (template 99)", n - k) || last == format!("{}/{n} unknown (template 99)", n - k), "list shows missing and total points and the grid type");
            }
        }
        s::cover(1);
    }
    // list: one line or one block for every submessage
    // (`arg` 0: of one message with any value of one of the fields)
    fn y_list(arg) {
        // from 100 on: so many submessages
        let (big, n) = (arg >= 100, arg as usize);
        let many = if big { [(n, 1), (1, n), (n / 10, 10)][s::choose(3)] } else { (0, 0) };
        let pick = |of: u8, k: usize| if big { k % of as usize } else { s::choose(of) };
        let mut all = vec![];
        let mut want: Vec<(String, Vec<String>, String)> = vec![];
        let mut text = vec![];
        for k in 0..if big { many.0 } else if arg == 0 { 1 } else { 1 + s::choose(arg as u8) } {
            let field = if arg == 0 { 1 + s::choose(5) } else { 0 };
            let d = if field == 1 { s::u8() } else { [0, 10][pick(2, k)] };
            let mut m = Msg::begin(all, d);
            m.sect(1, &[0; 16]);
            for j in 0..1 + if big { many.1 - 1 } else if arg == 0 { 0 } else { s::choose(2) } {
                let g = pick(2, k + j / 2);
                let mut s3 = vec![0, 0, 0, 0, 6, 0, 0, 0, [0, 77][g]];
                s3.extend_from_slice(&[0; 58]);
                let tmpl = [0u8, 20, 99][pick(3, k + j)];
                let mut s4 = vec![0, 0, 0, tmpl, 1, 3, 0, 0, 0, 0, 0, 0];
                s4.extend_from_slice(&[1, 0, 0, 0, 6]);
                s4.extend_from_slice(&[103, 1, 0, 0, 0, 25, 100, 0, 0x80, 0, 0, 5]);
                let (mut cat, mut num, mut process) = (1, 3, 0);
                let mut time = "6 [h]".to_owned();
                match field {
                    2 => {
                        cat = s::u8();
                        s4[4] = cat;
                    }
                    3 => {
                        num = s::u8();
                        s4[5] = num;
                    }
                    4 => {
                        process = s::u8();
                        s4[6] = process;
                    }
                    5 => {
                        let x = s::arr::<2>();
                        s4[15..17].copy_from_slice(&x);
                        time = format!("{} [h]", crate::prod::dec(u16::from_be_bytes(x) as u64));
                    }
                    _ => {}
                }
                m.sect(3, &s3).sect(4, &s4);
                m.sect(5, &[0, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0]);
                m.sect(6, &[255]).sect(7, &[]);
                let known = tmpl != 99;
                let name = |t: Option<&str>, n: usize| if known { crate::prod::shown(t, n) } else { String::new() };
                let mut parts = vec![name(crate::prod::table42(d, cat).as_deref(), num as usize), name(Some("4.3"), process as usize)];
                if tmpl == 0 {
                    parts.extend([time, "2.5 [m]".to_owned(), "-5 [Pa]".to_owned()]);
                }
                parts.retain(|x| !x.is_empty());
                want.push((format!("{k}.{j}"), parts, format!("2/ 6 {}", ["regular_ll", "unknown (template 77)"][g])));
            }
            all = m.end().0;
        }
        put(&all);
        let dump = if arg == 0 { 0 } else { s::choose(3) };
        if dump > 0 {
            let g = match from_slice(&all) {
                Ok(g) => g,
                Err(_) => unreachable!(),
            };
            for (i, x) in g.iter() {
                text.push(format!("{}.{}\n{}\n", i.0, i.1, x.describe()));
            }
        }
        let text = text.join("");
        let n = if dump > 0 { text.lines().count() - 1 } else { want.len() + 1 };
        let height = (n + s::choose(3) - 1) as u16;
        let p = terminal(height);
        let r = go(&["list", ["in.grib", "-d", "--dump"][dump], "in.grib"][..].get(..if dump > 0 { 3 } else { 2 }).unwrap());
        s::check(r.ok && r.err.is_empty(), "files of valid messages are listed");
        if dump > 0 {
            s::check(r.out == text, "list --dump describes every submessage under its index");
        } else {
            let lines: Vec<&str> = r.out.lines().collect();
            s::check(lines.len() == want.len() + 1, "list prints a line for every submessage");
            for (l, w) in lines[1..].iter().zip(&want) {
                let c: Vec<String> = l.split('│').map(|x| x.split_whitespace().collect::<Vec<_>>().join(" ")).collect();
                s::check(c.len() == 3 && c[0] == w.0, "a line begins with the index of its submessage");
                s::check(c[1] == w.1.join(" "), "a line has parameter, process, time and surfaces of its submessage");
                s::check(c[2].replace("/ ", "/") == w.2.replace("/ ", "/"), "a line has the numbers of points and the grid of its submessage");
            }
        }
        paged(p, height, &r.out);
        s::cover(1);
    }
    // info: one block for every message
    // (`arg` 0: of one message with any value of one of the fields)
    fn y_info(arg) {
        let mut all = vec![];
        let mut want: Vec<Vec<String>> = vec![];
        let mut bad = false;
        for k in 0..if arg == 0 { 1 } else { 1 + s::choose(arg as u8) } {
            let field = if arg == 0 { 1 + s::choose(8) } else { 0 };
            let d = if field == 1 { s::u8() } else { [0, 3, 200][s::choose(3)] };
            let mut m = Msg::begin(all, d);
            let start = m.start;
            let mut s1 = [0u8, 34, 1, 2, 5, 1, 1, 7, 229, 2, 28, 23, 59, 1, 0, 2];
            match s::choose(3) {
                0 => {}
                1 => s1 = [2, 0, 0, 7, 99, 0, 99, 7, 224, 2, 29, 0, 0, 0, 99, 0],
                _ => s1[9] = 13,
            }
            if field > 1 {
                // only this field is symbolic
                s::assume(s1[9] == 2 && s1[0] == 0);
                let at = [0, 2, 4, 5, 6, 14, 15][field - 2];
                s1[at] = s::u8();
                if at < 4 {
                    s1[at + 1] = s::u8();
                }
            }
            m.sect(1, &s1);
            layer(&mut m, &[1]);
            if s::choose(2) == 1 {
                layer(&mut m, &[1]);
            }
            all = m.end().0;
            if s1[9] == 13 {
                bad = true;
            }
            if !bad {
                let sh = |t: &str, n: u8| crate::prod::shown(Some(t), n as usize);
                want.push(vec![
                    format!("Message {k}"),
                    String::new(),
                    sh("0.0", d),
                    (all.len() - start).to_string(),
                    crate::prod::shown(Some("C11"), be16(&s1, 0) as usize),
                    be16(&s1, 2).to_string(),
                    format!("{} ({})", s1[4], sh("C00", s1[4])),
                    format!("{} ({})", s1[5], sh("1.1", s1[5])),
                    sh("1.2", s1[6]),
                    if s1[7..9] == [7, 229] { "2021-02-28 23:59:01 UTC".to_owned() } else { "2016-02-29 00:00:00 UTC".to_owned() },
                    sh("1.3", s1[14]),
                    sh("1.4", s1[15]),
                    String::new(),
                ]);
            }
        }
        put(&all);
        let r = go(&["info", "in.grib"]);
        s::check(r.ok == !bad, "a reference time that does not exist is reported");
        s::check(bad == r.err.starts_with("error: "), "a reference time that does not exist is reported");
        let want: Vec<String> = want.concat();
        let got: Vec<&str> = r.out.lines().collect();
        s::check(got.len() == want.len(), "info prints one block for every message");
        for (l, w) in got.iter().zip(&want) {
            let v = if l.starts_with("Message") { l } else { l.split_once(':').map_or("", |x| x.1.trim()) };
            s::check(v == w, "info shows the identification of each message");
        }
        s::cover(if bad { 2 } else { 1 });
    }
}
