//! Decoding of grid point values.
use crate::{s, util::*};
use grib::*;
use std::io::Cursor;

fn message(np: u32, s5: &[u8], s6: &[u8], s7: &[u8]) -> Vec<u8> {
    let mut m = Msg::begin(vec![], 0);
    m.sect(1, &[0; 16]);
    let mut s3 = vec![0u8; 9];
    s3[1..5].copy_from_slice(&np.to_be_bytes());
    m.sect(3, &s3);
    m.sect(4, &[0; 4]);
    m.sect(5, s5);
    m.sect(6, s6);
    m.sect(7, s7);
    m.end().0
}

/// Values of the only submessage of a message with these sections, `np` grid points in Section 3.
fn decode(np: u32, s5: &[u8], s6: &[u8], s7: &[u8]) -> Result<Vec<f32>, GribError> {
    let g = match from_reader(Cursor::new(message(np, s5, s6, s7))) {
        Ok(g) => g,
        Err(_) => {
            s::check(false, "a well-formed message is accepted");
            unreachable!()
        }
    };
    let (_, sm) = g.iter().next().unwrap();
    let d = Grib2SubmessageDecoder::from(sm)?;
    let mut it = d.dispatch()?;
    let mut v: Vec<f32> = vec![];
    loop {
        let left = (np as usize).wrapping_sub(v.len());
        s::check(
            it.size_hint() == (left, Some(left)),
            "size hint is the number of values left",
        );
        match it.next() {
            Some(x) => v.push(x),
            None => break,
        }
        s::check(v.len() <= np as usize, "not more values than grid points");
    }
    s::check(v.len() == np as usize, "as many values as grid points");
    s::check(it.next().is_none(), "nothing after the last value");
    Ok(v)
}

fn sect5(n: u32, tmpl: u16, p: &[u8]) -> Vec<u8> {
    let mut v = n.to_be_bytes().to_vec();
    v.extend_from_slice(&tmpl.to_be_bytes());
    v.extend_from_slice(p);
    v
}

fn obs(v: &[f32]) {
    for x in v {
        s::obs(if x.is_nan() {
            1 << 40
        } else {
            x.to_bits() as u64
        });
    }
}

fn ok(r: Result<Vec<f32>, GribError>) -> Vec<f32> {
    match r {
        Ok(v) => v,
        Err(_) => {
            s::check(false, "valid data is decoded");
            unreachable!()
        }
    }
}

/// Octets without a pattern.
fn noise(n: usize, seed: u32) -> Vec<u8> {
    let mut x = seed.wrapping_mul(2654435761).wrapping_add(12345);
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            (x >> 24) as u8
        })
        .collect()
}

/// `n` octets without a pattern, some of them any value: at the start, in the middle or at the end.
fn mostly_noise(n: usize, seed: u32, window: usize) -> Vec<u8> {
    let mut d = noise(n, seed);
    let at = [0, n / 2, n - window][s::choose(3)];
    for x in &mut d[at..at + window] {
        *x = s::u8();
    }
    d
}

crate::harnesses! {
    // simple packing, `arg` points, known octets but for a few
    fn d_simple_long(arg) {
        let n = arg as usize;
        let nbit = [1, 5, 8, 12, 24, 31][s::choose(6)];
        let p = Packing::any(nbit as u8);
        let d = mostly_noise((n * nbit + 7) / 8, 1, 5);
        let v = ok(decode(n as u32, &sect5(n as u32, 0, &p.octets), &[0xff], &d));
        for k in 0..n {
            let x = bits(&d, k * nbit, nbit);
            p.check(v[k], x as i64, x as u32 as f32, &[&d], "simple packing gives (R + X 2^E) / 10^D");
        }
        s::cover(1);
    }
    // bitmap over `arg` points of 8-bit values, known octets but for one
    fn d_bitmap_long(arg) {
        let n = arg as usize;
        let s6 = mostly_noise((n + 7) / 8, 2, 1);
        let set = |k: usize| s6[k / 8] >> (7 - k % 8) & 1 != 0;
        let marked: Vec<usize> = (0..n).filter(|k| set(*k)).collect();
        let m = marked.len();
        let p = Packing::any(8);
        let d = mostly_noise(m, 3, 2);
        let s6 = [vec![0], s6].concat();
        let v = ok(decode(n as u32, &sect5(m as u32, 0, &p.octets), &s6, &d));
        let mut j = 0;
        for k in 0..n {
            if j < m && marked[j] == k {
                p.check(v[k], d[j] as i64, d[j] as u32 as f32, &[&d], "points marked in the bitmap take the values in order");
                j += 1;
            } else {
                s::check(v[k].is_nan(), "points not marked in the bitmap are missing");
            }
        }
        s::cover(1);
    }
    // run-length packing: many points, known codes
    fn d_rle_long(arg) {
        let (nbit, maxv, nlevels) = [(8, 60u16, 60u16), (8, 253, 250), (4, 9, 9), (12, 300, 300), (16, 700, 600)][s::choose(5)];
        let lv = mostly_noise(2 * nlevels as usize, 4, 2);
        let base = (1u64 << nbit) - 1 - maxv as u64;
        let src = noise(3 * arg as usize, 5);
        let (mut codes, mut pts) = (vec![], vec![]);
        for k in 0..arg as usize {
            let l = (src[3 * k] as u64 * 256 + src[3 * k + 1] as u64) % (nlevels as u64 + 1);
            codes.push(l);
            pts.push(l);
            let mut run = [0, 1, 2, 9, 30, 300, 70, 5][src[3 * k + 2] as usize % 8];
            if k + 1 == arg as usize {
                run = 3000;
            }
            for _ in 0..run {
                pts.push(l);
            }
            while run > 0 {
                codes.push(maxv as u64 + 1 + run % base);
                run /= base;
            }
        }
        let np = pts.len();
        let dig = s::u8();
        let mut p = vec![nbit as u8];
        p.extend_from_slice(&maxv.to_be_bytes());
        p.extend_from_slice(&nlevels.to_be_bytes());
        p.push(dig);
        p.extend_from_slice(&lv);
        let g = match from_reader(Cursor::new(message(np as u32, &sect5(np as u32, 200, &p), &[0xff], &pack(&codes, nbit)))) {
            Ok(g) => g,
            Err(_) => return s::check(false, "a well-formed message is accepted"),
        };
        let (_, sm) = g.iter().next().unwrap();
        let v: Vec<f32> = match Grib2SubmessageDecoder::from(sm).and_then(|d| d.dispatch().map(|v| v.collect())) {
            Ok(v) => v,
            Err(_) => return s::check(false, "valid data is decoded"),
        };
        s::check(v.len() == np, "as many values as grid points");
        let scale = 10f32.powi(-sm8(dig));
        let mut known = None;
        for k in 0..np {
            let l = pts[k] as usize;
            if l == 0 {
                s::check(v[k].is_nan(), "level 0 is missing");
                continue;
            }
            if known == Some((v[k].to_bits(), l)) {
                continue;
            }
            let x = be16(&lv, 2 * l - 2);
            let value = x as f32 * scale;
            let preset = |k: usize| {
                let c = [0, 1, 0x82, 35, 0x80 | 33, 0x80];
                if k < PRESETS {
                    s::assume(dig == c[k]);
                }
                s::pin(dig as u64);
            };
            same(v[k], value, preset, &[&lv], "a level stands for its value scaled by 10^-D", || {
                let e = x as f64 * 10f64.powi(-sm8(dig));
                (value, e, e)
            });
            known = Some((v[k].to_bits(), l));
        }
        s::cover(1);
    }
    // run-length packing: one run of at least `arg` points, of few or many digits
    fn d_rle_run(arg) {
        let (nbit, maxv) = [(8, 253u16), (8, 250), (8, 3), (16, 700)][s::choose(4)];
        let base = (1u64 << nbit) - 1 - maxv as u64;
        let lv = s::bytes(4);
        let (run, dig) = (arg as u64 + s::choose(3) as u64, s::u8());
        let mut codes = vec![1u64];
        let mut left = run;
        while left > 0 {
            codes.push(maxv as u64 + 1 + left % base);
            left /= base;
        }
        codes.push(2);
        codes.push(0);
        let np = run as usize + 3;
        let mut p = vec![nbit as u8];
        p.extend_from_slice(&maxv.to_be_bytes());
        p.extend_from_slice(&[0, 2, dig]);
        p.extend_from_slice(&lv);
        let wrong = s::choose(3);
        let np_given = [np, np - 1, np + 1][wrong];
        let r = decode(np_given as u32, &sect5(np_given as u32, 200, &p), &[0xff], &pack(&codes, nbit));
        if wrong != 0 {
            s::cover(2);
            return s::check(r.is_err(), "runs that do not fill the grid are an error");
        }
        let v = ok(r);
        s::check(v.len() == np, "as many values as grid points");
        let scale = 10f32.powi(-sm8(dig));
        let same_bits = |a: f32, b: f32| s::known(a.to_bits() as u64, b.to_bits() as u64);
        s::check((1..=run as usize).all(|k| same_bits(v[k], v[0])), "a run repeats its level");
        s::check(v[np - 1].is_nan(), "level 0 is missing");
        for (k, l) in [(0, 0), (np - 2, 2)] {
            let x = be16(&lv, l);
            let value = x as f32 * scale;
            let preset = |k: usize| {
                let c = [0, 1, 0x82, 35, 0x80 | 33, 0x80];
                if k < PRESETS {
                    s::assume(dig == c[k]);
                }
                s::pin(dig as u64);
            };
            same(v[k], value, preset, &[&lv], "a level stands for its value scaled by 10^-D", || {
                let e = x as f64 * 10f64.powi(-sm8(dig));
                (value, e, e)
            });
        }
        s::cover(1);
    }
    // complex packing: many groups, known references and data
    fn d_complex_long(arg) {
        let g = arg as usize % 1000;
        let mut c = Complex::new(s::choose(3) as u8);
        let r = noise(2 * g, 6);
        c.known = true;
        c.nbit = 9;
        c.width_nbit = 4;
        c.width_ref = s::choose(2) as u8;
        c.widths = r[..g].iter().map(|x| x % 11).collect();
        c.len_nbit = 3;
        c.len_ref = 2;
        c.len_inc = 3;
        c.lens = r[g..].iter().map(|x| (x % 8) as u32).collect();
        c.len_last = 13;
        let np = c.lens[..g - 1].iter().map(|l| 2 + 3 * *l as usize).sum::<usize>() + 13;
        if arg >= 1000 {
            let order = 1 + s::choose(2);
            c.extra = Some((order, 2, noise((order + 1) * 2, 10)));
        }
        c.run(np);
    }
    // complex packing: three groups, the first one of up to `arg` values
    fn d_complex_group(arg) {
        let mut c = Complex::new(s::choose(3) as u8);
        c.known = true;
        c.nbit = 9;
        c.width_nbit = 6;
        let (first, w) = [(arg as u32, 11), (arg as u32 / 2, 31), (arg as u32 - 1, 8), (255, 8), (257, 17)][s::choose(5)];
        c.widths = vec![w, 7, 0];
        c.len_nbit = 16;
        c.len_inc = 1;
        c.lens = vec![first, 19, 0];
        c.len_last = 5;
        c.run(first as usize + 24);
    }
    // bitmap over `arg` points, all values the reference value: number of values, any
    fn d_bitmap_count(arg) {
        let n = arg as usize;
        let mut s6 = vec![0xff; (n + 7) / 8];
        for k in [0, 1, s6.len() / 2, s6.len() - 1] {
            s6[k] = s::u8();
        }
        let m: u32 = s6.iter().enumerate().map(|(k, x)| if 8 * k + 8 > n { *x & !(0xff >> (n % 8)) } else { *x }).map(|x| (0..8).map(|b| (x >> b & 1) as u32).sum::<u32>()).sum();
        let p = Packing::any(0);
        let values = s::u32();
        let b = message(n as u32, &sect5(values, 0, &p.octets), &[vec![0], s6].concat(), &[]);
        let g = match from_reader(Cursor::new(b)) {
            Ok(g) => g,
            Err(_) => return s::check(false, "a well-formed message is accepted"),
        };
        let (_, sm) = g.iter().next().unwrap();
        let d = match Grib2SubmessageDecoder::from(sm) {
            Ok(d) => d,
            Err(_) => return s::check(false, "a well-formed message can be decoded"),
        };
        let r = d.dispatch().map(|v| v.size_hint());
        match r {
            Ok(v) => {
                s::check(m <= values, "fewer values than points marked in the bitmap are an error");
                s::check(v == (n, Some(n)), "one value for each grid point");
                s::cover(1);
            }
            Err(_) => {
                s::check(m > values, "data with a value for each point marked is decoded");
                s::cover(2);
            }
        }
    }
    // constant field of `arg` points
    fn d_const_long(arg) {
        let n = arg as u32;
        let p = Packing::any(0);
        let v = ok(decode(n, &sect5(n, 0, &p.octets), &[0xff], &[]));
        s::check(v.len() == n as usize, "as many values as grid points");
        let want = (p.r * 10f32.powi(-p.d)).to_bits();
        if s::known(v[0].to_bits() as u64, want as u64) {
            s::cover(1);
        }
        p.check(v[0], 0, 0.0, &[], "zero bits give the reference value");
        s::check(v.iter().all(|x| s::known(x.to_bits() as u64, v[0].to_bits() as u64)), "all values are the same");
    }
    // complex packing: one or two groups of any length, with little data
    fn d_complex_large(_arg) {
        let width = [1u8, 7, 32][s::choose(3)];
        let len = [7u32, 8, 254, 255, 256, 257, 2047, 2048, 8191, 8192, 32768, 65535, 65536, 65537, 131072, 524288][s::choose(16)];
        let one = s::choose(2) == 1;
        let first = if one { 0 } else { [1u32, 255, 65535][s::choose(3)] };
        let n = len + first;
        let (ngroup, lens): (u32, Vec<u8>) = if one { (1, vec![]) } else { (2, vec![]) };
        let p = Packing::any(8);
        let mut s5 = p.octets.to_vec();
        s5.extend_from_slice(&[1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        s5.extend_from_slice(&ngroup.to_be_bytes());
        s5.extend_from_slice(&[width, 0]);
        s5.extend_from_slice(&first.to_be_bytes());
        s5.push(1);
        s5.extend_from_slice(&len.to_be_bytes());
        s5.push(0);
        let have = (width as u64 * n as u64 + 7) / 8;
        let cut = [have.min(1), have / 2, have & 0xff, have & 0xfff, have & 0xffff][s::choose(5)];
        s::assume(cut < have && cut < 3000);
        let d = [s::bytes(ngroup as usize), lens, vec![0x5a; cut as usize]].concat();
        s::check(decode(n, &sect5(n, 2, &s5), &[0xff], &d).is_err(), "too little data is an error");
        s::cover(1);
    }
    // PNG: `arg` pixels, known octets but for a few
    fn d_png_long(arg) {
        let n = arg as usize;
        let nbit = [8, 16, 24][s::choose(3)];
        let p = Packing::any(nbit as u8);
        let d = mostly_noise(n * nbit / 8, 7, 3);
        let s7 = [vec![2], d.clone()].concat();
        let v = ok(decode(n as u32, &sect5(n as u32, 41, &p.octets), &[0xff], &s7));
        for k in 0..n {
            let x = bits(&d, k * nbit, nbit);
            p.check(v[k], x as i64, x as u32 as f32, &[&d], "PNG gives (R + X 2^E) / 10^D");
        }
        s::cover(1);
    }
    // JPEG 2000: image of `arg` columns, known samples but for one
    fn d_jpeg_long(arg) {
        // more than 255 columns in units of 256
        let rows = 3;
        let (tag, columns) = if arg > 255 { (0x82, (arg / 256) as u8) } else { (2, arg as u8) };
        let n = if arg > 255 { 256 } else { 1 } * columns as usize * rows;
        let p = Packing::any(16);
        let d = mostly_noise(2 * n, 8, 2);
        let s7 = [vec![tag, 0, 0, columns, rows as u8, 1, 1, 1], d.clone()].concat();
        let v = ok(decode(n as u32, &sect5(n as u32, 40, &p.octets), &[0xff], &s7));
        for k in 0..n {
            let x = be16(&d, 2 * k) as i16;
            p.check(v[k], x as i64, x as i32 as f32, &[&d], "JPEG 2000 gives (R + X 2^E) / 10^D");
        }
        s::cover(1);
    }
    // simple packing, `arg` points, every bit width
    fn d_simple(arg) {
        let n = arg as usize;
        let nbit = 1 + s::choose(32);
        let p = Packing::any(nbit as u8);
        let pad = s::choose(2);
        let d = s::bytes((n * nbit + 7) / 8 + pad);
        let v = ok(decode(n as u32, &sect5(n as u32, 0, &p.octets), &[0xff], &d));
        for k in 0..n {
            let x = bits(&d, k * nbit, nbit);
            p.check(v[k], x as i64, x as u32 as f32, &[&d], "simple packing gives (R + X 2^E) / 10^D");
        }
        obs(&v);
        s::cover(1);
    }
    // constant field
    fn d_const(arg) {
        let n = arg as usize;
        let t = [0u16, 40, 41][s::choose(3)];
        let p = Packing::any(0);
        let d = if t == 41 { s::bytes(3) } else { s::bytes(s::choose(3)) };
        if t == 41 {
            s::assume(d[0] > 1);
        }
        let v = ok(decode(n as u32, &sect5(n as u32, t, &p.octets), &[0xff], &d));
        let want = p.r * 10f32.powi(-p.d);
        for k in 0..n {
            if s::known(v[k].to_bits() as u64, want.to_bits() as u64) {
                continue;
            }
            p.check(v[k], 0, 0.0, &[], "zero bits give the reference value");
        }
        obs(&v);
        s::cover(1);
    }
    // bitmap over `arg` points of 8-bit values
    fn d_bitmap(arg) {
        let n = arg as usize;
        let extra = s::choose(2);
        let mut s6 = s::bytes(1 + (n + 7) / 8 + extra);
        s6[0] = 0;
        let set = |k: usize| s6[1 + k / 8] >> (7 - k % 8) & 1 != 0;
        let mut m = 0;
        for k in 0..n {
            if set(k) {
                m += 1;
            }
        }
        let p = Packing::any(8);
        let d = s::bytes(m);
        let v = ok(decode(n as u32, &sect5(m as u32, 0, &p.octets), &s6, &d));
        let mut j = 0;
        for k in 0..n {
            if set(k) {
                p.check(v[k], d[j] as i64, d[j] as u32 as f32, &[&d], "points marked in the bitmap take the values in order");
                j += 1;
            } else {
                s::check(v[k].is_nan(), "points not marked in the bitmap are missing");
            }
        }
        obs(&v);
        s::cover(1);
    }
    // run-length packing: `arg` octets
    fn d_rle(arg) {
        let widths: &[usize] = if arg == 1 { &[1, 2, 3, 4] } else { &[4, 5, 7, 8, 12, 16] };
        let nbit = widths[s::choose(widths.len() as u8)];
        let ones = (1u32 << nbit) - 1;
        let maxv = [0u16, 1, (ones / 2) as u16, ones.saturating_sub(3) as u16, ones as u16, 0xffff][s::choose(6)];
        rle(arg as usize * 8 / nbit, nbit, maxv, [0, 2][s::choose(2)]);
    }
    // run-length packing as used for radar composites: `arg` codes, any maximum level
    fn d_rle_max(arg) {
        let maxv = [5, 200, 248, 251, 252, 253, 254, 255, 256][s::choose(9)];
        rle(arg as usize, 8, maxv, 2);
    }
    // complex packing: field widths of the groups
    fn d_complex_width(arg) {
        let mut c = Complex::new(arg as u8);
        c.nbit = 8;
        c.width_nbit = 6;
        c.width_ref = s::choose(2) as u8;
        c.widths = vec![s::choose(34) as u8, [0, 1, 5, 32][s::choose(4)]];
        c.len_ref = 1;
        c.len_last = 2;
        c.lens = vec![0, 0];
        c.run(3);
    }
    // complex packing: bits of the group references
    fn d_complex_ref(arg) {
        let mut c = Complex::new(arg as u8);
        c.nbit = s::choose(33) as u8;
        c.width_ref = [0, 4][s::choose(2)];
        c.widths = vec![0, 0];
        c.len_ref = 2;
        c.len_last = 1;
        c.lens = vec![0, 0];
        c.run(3);
    }
    // complex packing: lengths of the groups
    fn d_complex_len(arg) {
        let mut c = Complex::new(s::choose(3) as u8);
        c.nbit = 3;
        c.width_ref = [0, 2][s::choose(2)];
        c.widths = vec![0; s::choose(4)];
        c.len_nbit = [0, 1, 4, 8, 32][s::choose(5)];
        c.len_ref = s::u32();
        c.len_inc = s::u8();
        c.len_last = s::u32();
        c.lens = (0..c.widths.len()).map(|_| s::u32() & (((1u64 << c.len_nbit) - 1) as u32)).collect();
        c.run(arg as usize);
    }
    // complex packing with spatial differencing, two groups
    fn d_diff(arg) {
        let order = 1 + s::choose(2);
        let octets = 1 + s::choose(4);
        let mut c = Complex::new(arg as u8);
        c.nbit = [0, 5][s::choose(2)];
        c.width_nbit = 4;
        c.widths = [vec![3, 0], vec![0, 9]][s::choose(2)].clone();
        c.len_ref = 2;
        c.len_last = 3;
        c.lens = vec![0, 0];
        c.extra = Some((order, octets, s::bytes((order + 1) * octets)));
        c.run(5);
    }
    // complex packing: data as long as needed, less or more, group parameters too wide
    fn d_complex_short(arg) {
        let mut c = Complex::new(0);
        c.nbit = [8, 33, 255][s::choose(3)];
        c.width_nbit = [0, 4, 33][s::choose(3)];
        c.width_ref = [0, 3, 33][s::choose(3)];
        c.len_nbit = [0, 4, 33][s::choose(3)];
        c.len_ref = 1;
        c.len_last = 2;
        c.widths = vec![0, 5];
        c.lens = vec![0, 1];
        c.extra = if arg > 0 { Some((arg as usize, 2, s::bytes((arg as usize + 1) * 2))) } else { None };
        c.cut = s::choose(24);
        c.run(3);
    }
    // PNG: pixel octets as a bit stream, every bit width
    fn d_png(arg) {
        let n = arg as usize;
        let nbit = s::choose(34);
        let p = Packing::any(nbit as u8);
        let len = ((n * nbit + 7) / 8 + s::choose(3)).saturating_sub(1);
        let mut s7 = s::bytes(1 + len.max(1));
        let r = decode(n as u32, &sect5(n as u32, 41, &p.octets), &[0xff], &s7);
        if s7[0] < 2 || nbit > 32 || n * nbit > len.max(1) * 8 {
            s::cover(2);
            s::check(r.is_err(), "an unreadable image or too few pixels are reported");
            return;
        }
        let v = ok(r);
        s7.remove(0);
        if nbit > 0 {
            for k in 0..n {
                let x = bits(&s7, k * nbit, nbit);
                p.check(v[k], x as i64, x as u32 as f32, &[&s7], "PNG gives (R + X 2^E) / 10^D");
            }
        }
        obs(&v);
        s::cover(1);
    }
    // JPEG 2000: component values in order; image of any geometry up to `arg`
    fn d_jpeg(arg) {
        let lim = arg as u8;
        let n = s::choose(4);
        let mut h: [u8; 8] = s::arr();
        s::assume(h[0] != 0x82);
        for k in 1..8 {
            s::assume(h[k] <= lim);
            h[k] = s::each(h[k] as u64) as u8;
        }
        s::assume(h[7] <= 2);
        let p = Packing::any(16);
        let dv = |a: u8, d: u8| (a as usize + d as usize - 1) / (d as usize).max(1);
        let valid = h[0] > 1 && h[1] < h[3] && h[2] < h[4] && h[5] > 0 && h[6] > 0;
        let count = if valid { (dv(h[3], h[5]) - dv(h[1], h[5])) * (dv(h[4], h[6]) - dv(h[2], h[6])) } else { 0 };
        let cut = s::choose(2);
        let d = s::bytes((count * 2).saturating_sub(cut));
        let mut s7 = h.to_vec();
        s7.extend_from_slice(&d);
        let r = decode(n as u32, &sect5(n as u32, 40, &p.octets), &[0xff], &s7);
        if !valid || h[7] != 1 || d.len() < count * 2 || count < n {
            s::cover(2);
            s::check(r.is_err(), "an undecodable image, several components or too few samples are reported");
            return;
        }
        let v = ok(r);
        for k in 0..n {
            let x = be16(&d, 2 * k) as i16;
            p.check(v[k], x as i64, x as i32 as f32, &[&d], "JPEG 2000 gives (R + X 2^E) / 10^D");
        }
        obs(&v);
        s::cover(1);
    }
    // fewer values than points, or a short bitmap
    fn d_short(arg) {
        let n = s::choose(12);
        let enc = s::choose(12);
        let nbit = [1, 3, 8, 16, 33, 255][s::choose(6)];
        let len = s::choose(arg as u8);
        let map = s::choose(4);
        let (s6, marked) = if map == 3 {
            (vec![0xff], n)
        } else {
            let mut b = s::bytes(1 + map);
            b[0] = 0;
            let k = (0..n.min(map * 8)).filter(|k| b[1 + k / 8] >> (7 - k % 8) & 1 != 0).count();
            (b, k)
        };
        let p = Packing::any(nbit as u8);
        let r = decode(n as u32, &sect5(enc as u32, 0, &p.octets), &s6, &s::bytes(len));
        if nbit > 32 || enc * nbit > len * 8 || marked > enc || map != 3 && map * 8 < n {
            s::cover(2);
            s::check(r.is_err(), "data or a bitmap too short for the grid is reported");
        } else {
            s::cover(1);
            s::check(r.is_ok(), "sufficient data is decoded");
        }
    }
    // any template parameters and data, up to `arg` octets: an error or exactly as many values as points
    fn d_any(arg) {
        let t = [0u16, 2, 3, 40, 41, 200, 4][(arg % 10) as usize];
        let size = (arg / 10) as usize;
        let n5 = match t {
            2 => 42,
            3 => 44,
            200 => 6 + 4 + 2 * s::choose(2),
            _ => 16,
        } + [1, 0][s::choose(2)];
        let mut s5 = s::bytes(n5 - 1);
        s5[4] = (t >> 8) as u8;
        s5[5] = t as u8;
        if t == 40 && size > 12 {
            return;
        }
        let one_of = |x: u8, of: &[u8]| {
            s::assume(of.contains(&x));
            s::each(x as u64);
        };
        if t == 2 || t == 3 {
            one_of(s5[14], &[0, 8, 33]);
            one_of(s5[30], &[0, 1, 32, 255]);
            one_of(s5[31], &[0, 1, 33]);
            if s5.len() > 41 {
                one_of(s5[41], &[0, 1, 33]);
            }
        }
        if t == 200 {
            one_of(s5[6], &[0, 4, 8, 16, 17]);
            one_of(s5[7], &[0, 1, 255]);
            one_of(s5[8], &[0, 3, 127, 254, 255]);
        }
        if t == 2 || t == 3 || t == 200 {
            s::assume(be32(&s5, 0) < 4);
        }
        if n5 >= 31 {
            // number of groups: its loops are as long as it says
            s::assume(be32(&s5, 26) < 3);
        }
        let np = s::u32();
        s::assume(np < 3);
        let s6 = s::bytes(1 + s::choose(2));
        let s7 = s::bytes(size);
        if t == 40 && size >= 8 {
            // the stand-in's image header: offsets and sizes of at most 2, subsampling of at most
            // 2, at most 2 components
            for x in &s7[1..8] {
                s::assume(*x <= 2);
            }
            s::assume(s7[0] != 0x82);
            for x in &s7[1..5] {
                s::each(*x as u64);
            }
        }
        match decode(np, &s5, &s6, &s7) {
            Ok(_) => s::cover(1),
            Err(_) => s::cover(2),
        }
    }
    // template numbers and bitmap indicators not supported
    fn d_unsupported(arg) {
        let t = s::u16();
        let b = s::u8();
        let p = Packing::any(0);
        let r = decode(arg as u32, &sect5(arg as u32, t, &p.octets), &[b], &[]);
        if ![0, 2, 3, 40, 41, 200].contains(&t) || b != 0 && b != 0xff {
            s::check(r.is_err(), "unsupported templates and bitmap indicators are reported");
            s::cover(1);
        }
    }
}

fn rle(m: usize, nbit: usize, maxv: u16, nlevels: u16) {
    let np = [0, 1, 3, 6][s::choose(4)];
    let lv = s::bytes(nlevels as usize * 2);
    let dig = s::u8();
    let ones = (1u64 << nbit) - 1;
    let codes: Vec<u64> = (0..m)
        .map(|_| {
            let x = s::u16() as u64;
            s::assume(x <= ones);
            x
        })
        .collect();
    // what the data says: levels of the points in order
    let base = ones.saturating_sub(maxv as u64);
    let (mut pts, mut weight, mut good): (Vec<u64>, u64, bool) = (vec![], 1, true);
    for (k, x) in codes.iter().enumerate() {
        if pts.len() == np && (m * nbit + 7) / 8 * 8 - k * nbit < 8 {
            // zero bits filling up the last octet
            for x in &codes[k..] {
                s::assume(*x == 0);
            }
            break;
        }
        if *x <= maxv as u64 {
            pts.push(if *x <= nlevels as u64 {
                s::each(*x)
            } else {
                nlevels as u64 + 1
            });
            weight = 1;
        } else {
            let run = (*x - maxv as u64 - 1) * weight;
            if pts.is_empty() || pts.len() as u64 + run > np as u64 {
                good = false;
                break;
            }
            let last = *pts.last().unwrap();
            for _ in 0..s::each(run) {
                pts.push(last);
            }
            weight *= base;
        }
    }
    let d = pack(&codes, nbit);
    good = good && pts.len() == np && pts.iter().all(|l| *l <= nlevels as u64);
    let mut p = vec![nbit as u8];
    p.extend_from_slice(&maxv.to_be_bytes());
    p.extend_from_slice(&nlevels.to_be_bytes());
    p.push(dig);
    p.extend_from_slice(&lv);
    let r = decode(np as u32, &sect5(np as u32, 200, &p), &[0xff], &d);
    if !good {
        s::cover(2);
        s::check(
            r.is_err(),
            "runs that do not fit the grid or levels without a value are reported",
        );
        return;
    }
    let v = ok(r);
    for k in 0..np {
        let l = pts[k] as usize;
        if l == 0 {
            s::check(v[k].is_nan(), "level 0 is missing");
            continue;
        }
        let x = be16(&lv, 2 * l - 2);
        let value = |x: u16| x as f32 * 10f32.powi(-sm8(dig));
        let preset = |k: usize| {
            let c = [0, 1, 0x82, 35, 0x80 | 33, 0x80];
            if k < PRESETS {
                s::assume(dig == c[k]);
            }
            s::pin(dig as u64);
        };
        same(
            v[k],
            value(x),
            preset,
            &[&lv],
            "a level stands for its value scaled by 10^-D",
            || {
                let e = x as f64 * 10f64.powi(-sm8(dig));
                (value(x), e, e)
            },
        );
    }
    obs(&v);
    s::cover(1);
}

/// Complex packing (templates 5.2 and 5.3) with all parameters chosen by the harness.
struct Complex {
    mvm: u8,
    nbit: u8,
    width_ref: u8,
    width_nbit: u8,
    widths: Vec<u8>,
    len_ref: u32,
    len_inc: u8,
    len_last: u32,
    len_nbit: u8,
    lens: Vec<u32>,
    /// order, octets per descriptor, descriptors
    extra: Option<(usize, usize, Vec<u8>)>,
    /// octets left out (1..20) or added (20..)
    cut: usize,
    /// references and data have no pattern, but are known, apart from a few octets
    known: bool,
}

fn pack(v: &[u64], n: usize) -> Vec<u8> {
    let mut out = vec![0u8; (v.len() * n + 7) / 8];
    for (k, x) in v.iter().enumerate() {
        for i in 0..n {
            let at = k * n + i;
            let bit = if n - 1 - i < 64 {
                (x >> (n - 1 - i)) as u8 & 1
            } else {
                0
            };
            out[at / 8] |= bit << (7 - at % 8);
        }
    }
    out
}

impl Complex {
    fn new(mvm: u8) -> Self {
        Complex {
            mvm,
            nbit: 0,
            width_ref: 0,
            width_nbit: 0,
            widths: vec![],
            len_ref: 0,
            len_inc: 1,
            len_last: 0,
            len_nbit: 0,
            lens: vec![],
            extra: None,
            cut: 0,
            known: false,
        }
    }
    fn run(&self, np: usize) {
        let g = self.widths.len();
        let refs: Vec<u64> = (0..g)
            .map(|k| {
                let x = if self.known {
                    be32(&noise(4, 100 + k as u32), 0)
                } else {
                    s::u32()
                };
                x as u64 & ((1u64 << self.nbit.min(32)) - 1)
            })
            .collect();
        // lengths and widths of the groups
        let mut left = np as u64;
        let mut fits = true;
        let mut lens = vec![];
        for k in 0..g {
            let l = if k + 1 == g {
                self.len_last as u64
            } else {
                self.len_ref as u64 + self.len_inc as u64 * self.lens[k] as u64
            };
            if l > left {
                fits = false;
                break;
            }
            let l = s::each(l);
            left -= l;
            lens.push(l as usize);
        }
        fits = fits && left == 0;
        let widths: Vec<usize> = self
            .widths
            .iter()
            .map(|w| self.width_ref as usize + if self.width_nbit > 0 { *w as usize } else { 0 })
            .collect();
        let total: usize = if fits {
            lens.iter().zip(&widths).map(|(l, w)| l * w).sum()
        } else {
            0
        };
        let data = if self.known {
            mostly_noise((total + 7) / 8, 9, 2)
        } else {
            s::bytes((total + 7) / 8)
        };
        // Section 7
        let mut s7 = vec![];
        if let Some((_, _, d)) = &self.extra {
            s7.extend_from_slice(d);
        }
        s7.extend_from_slice(&pack(&refs, self.nbit as usize));
        s7.extend_from_slice(&pack(
            &self.widths.iter().map(|w| *w as u64).collect::<Vec<_>>(),
            self.width_nbit as usize,
        ));
        s7.extend_from_slice(&pack(
            &self.lens.iter().map(|l| *l as u64).collect::<Vec<_>>(),
            self.len_nbit as usize,
        ));
        s7.extend_from_slice(&data);
        if self.cut >= 20 {
            s7.extend_from_slice(&s::bytes(self.cut - 19));
        } else {
            s7.truncate(s7.len().saturating_sub(self.cut));
        }
        // Section 5
        let p = Packing::any(self.nbit);
        let mut s5 = p.octets.to_vec();
        s5.extend_from_slice(&[1, self.mvm]);
        s5.extend_from_slice(&s::bytes(8));
        s5.extend_from_slice(&(g as u32).to_be_bytes());
        s5.extend_from_slice(&[self.width_ref, self.width_nbit]);
        s5.extend_from_slice(&self.len_ref.to_be_bytes());
        s5.push(self.len_inc);
        s5.extend_from_slice(&self.len_last.to_be_bytes());
        s5.push(self.len_nbit);
        if let Some((order, octets, _)) = &self.extra {
            s5.extend_from_slice(&[*order as u8, *octets as u8]);
        }
        let tmpl = if self.extra.is_some() { 3 } else { 2 };
        let r = decode(np as u32, &sect5(np as u32, tmpl, &s5), &[0xff], &s7);
        let wide = widths.iter().any(|w| *w > 32)
            || self.nbit > 32
            || self.width_nbit > 32
            || self.len_nbit > 32;
        if !fits || wide || self.cut > 0 && self.cut < 20 {
            s::cover(2);
            s::check(
                r.is_err(),
                "groups that do not fit the grid or the data, and unsupported widths are reported",
            );
            return;
        }
        let v = ok(r);
        // integers before scaling; None is missing
        let ones = |n: usize| ((1u64 << n) - 1) as i64;
        let missing =
            |x: i64, n: usize| self.mvm > 0 && x == ones(n) || self.mvm == 2 && x == ones(n) - 1;
        let sm = |b: &[u8]| {
            let x = b.iter().fold(0i64, |a, b| a << 8 | *b as i64);
            let sign = 1i64 << (8 * b.len() - 1);
            if x & sign != 0 {
                -(x & (sign - 1))
            } else {
                x
            }
        };
        let mut xs: Vec<Option<i64>> = vec![];
        let mut at = 0;
        for k in 0..g {
            for _ in 0..lens[k] {
                let r = refs[k] as i64;
                if widths[k] == 0 {
                    xs.push(if missing(r, self.nbit as usize) {
                        None
                    } else {
                        Some(r)
                    });
                } else {
                    let x = bits(&data, at, widths[k]) as i64;
                    at += widths[k];
                    xs.push(if missing(x, widths[k]) {
                        None
                    } else {
                        Some(r + x)
                    });
                }
            }
        }
        if let Some((order, octets, d)) = &self.extra {
            let f = |k: usize| sm(&d[k * octets..(k + 1) * octets]);
            let min = f(*order);
            let mut done: Vec<i64> = vec![];
            for x in xs.iter_mut() {
                if let Some(x) = x {
                    let n = done.len();
                    *x = if n < *order {
                        f(n)
                    } else if *order == 1 {
                        x.wrapping_add(min).wrapping_add(done[n - 1])
                    } else {
                        let twice = done[n - 1].wrapping_mul(2);
                        x.wrapping_add(min).wrapping_add(twice).wrapping_sub(done[n - 2])
                    };
                    done.push(*x);
                }
            }
        }
        for k in 0..np {
            match xs[k] {
                None => s::check(v[k].is_nan(), "a missing value is not a number"),
                Some(x) => p.check(
                    v[k],
                    x,
                    x as i32 as f32,
                    &[&data, &s7],
                    "complex packing gives (R + X 2^E) / 10^D",
                ),
            }
        }
        obs(&v);
        s::cover(1);
    }
}
