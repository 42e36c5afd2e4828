//! Grid definitions: fields, order of points, coordinates.
use crate::{s, util::*};
use grib::{GridDefinitionTemplateValues as V, *};
use std::io::Cursor;

fn def(b: &[u8]) -> Option<GridDefinition> {
    GridDefinition::from_payload(b.to_vec().into_boxed_slice()).ok()
}

fn values(b: &[u8]) -> Result<V, GribError> {
    match def(b) {
        Some(d) => V::try_from(&d),
        None => {
            s::check(false, "Section 3 of at least 14 octets is accepted");
            unreachable!()
        }
    }
}

/// payload of a grid definition section with a given template number, everything else any value
fn payload(t: u16, len: usize) -> Vec<u8> {
    let mut b = s::bytes(len);
    b[7] = (t >> 8) as u8;
    b[8] = t as u8;
    b
}

const TEMPLATES: [u16; 4] = [0, 20, 30, 40];

/// (shortest payload, Ni, Nj, La1, Lo1, scanning mode) by octet number in the section, minus 6
fn layout(t: u16) -> (usize, usize, usize, usize, usize, usize) {
    match t {
        0 | 40 => (72 - 5, 31 - 6, 35 - 6, 47 - 6, 51 - 6, 72 - 6),
        20 => (65 - 5, 31 - 6, 35 - 6, 39 - 6, 43 - 6, 65 - 6),
        _ => (73 - 5, 31 - 6, 35 - 6, 39 - 6, 43 - 6, 65 - 6),
    }
}

fn put(b: &mut [u8], at: usize, x: u32) {
    b[at..at + 4].copy_from_slice(&x.to_be_bytes());
}

/// point number k in scanning order, WMO flag table 3.4
fn at(ni: u64, nj: u64, scan: u8, k: u64) -> (usize, usize) {
    let (along, _) = if scan & 0x20 == 0 { (ni, nj) } else { (nj, ni) };
    let (row, mut col) = (k / along, k % along);
    if scan & 0x10 != 0 && row % 2 == 1 {
        col = along - 1 - col;
    }
    if scan & 0x20 == 0 {
        (col as usize, row as usize)
    } else {
        (row as usize, col as usize)
    }
}

fn earth(e: &EarthShapeDefinition, b: &[u8]) -> bool {
    e.shape_of_the_earth == b[9]
        && e.scale_factor_of_radius_of_spherical_earth == b[10]
        && e.scaled_value_of_radius_of_spherical_earth == be32(b, 11)
        && e.scale_factor_of_earth_major_axis == b[15]
        && e.scaled_value_of_earth_major_axis == be32(b, 16)
        && e.scale_factor_of_earth_minor_axis == b[20]
        && e.scaled_value_of_earth_minor_axis == be32(b, 21)
}

fn near(got: f64, want: f64, mag: f64) -> bool {
    (got - want).abs() <= 1e-6 * mag
}

/// checks `got` degrees against first + k * (last - first) / (n - 1) microdegrees (both i32, shifted
/// by `turn` full circles), reduced by a full circle if `wrap`
fn degrees(
    got: f32,
    first: i32,
    last: i32,
    turn: (i32, i32),
    n: usize,
    k: usize,
    wrap: bool,
    rest: usize,
    what: &'static str,
) {
    let f = |x: i32, t: i32| x as f32 + if t == 0 { 0.0 } else { 360_000_000f32 };
    let (a, b) = (
        if turn.0 == 0 {
            first as f32
        } else {
            f(first, 1)
        },
        if turn.1 == 0 { last as f32 } else { f(last, 1) },
    );
    let delta = if n > 1 { (b - a) / (n - 1) as f32 } else { 0.0 };
    let raw = (a + k as f32 * delta) / 1_000_000f32;
    let want = if wrap && !(raw < 360.0) {
        raw - 360.0
    } else {
        raw
    };
    if s::known(got.to_bits() as u64, want.to_bits() as u64) {
        s::check(true, what);
        return;
    }
    // not the same operations: compare for a few end points
    let c = [
        (0, 90_000_000),
        (10_000_000, 350_000_000),
        (-45_500_000, 45_500_000),
        (359_750_000, 250_000),
        (-90_000_000, -89_000_000),
        (5_000_000, 5_000_000),
    ];
    if !s::concrete(got.to_bits() as u64) {
        // all of them for a single row or column
        let few = rest != 1;
        let k1 = s::choose(if few { 2 } else { 7 });
        if few || k1 < 6 {
            let c = c[if few { (n + 3 * k1) % 6 } else { k1 }];
            s::assume(first == c.0 && last == c.1 || first == c.1 && last == c.0);
        }
    }
    s::differ();
    let (first, last) = (
        s::pin(first as u32 as u64) as u32 as i32,
        s::pin(last as u32 as u64) as u32 as i32,
    );
    let (a, b) = (
        first as f64 / 1e6 + turn.0 as f64 * 360.0,
        last as f64 / 1e6 + turn.1 as f64 * 360.0,
    );
    let raw = if n > 1 {
        a + (b - a) * k as f64 / (n - 1) as f64
    } else {
        a
    };
    let mag = a.abs() + b.abs() + 1.0;
    let g = got as f64;
    s::check(
        near(g, raw, mag) && !(wrap && g >= 360.0)
            || wrap && raw > 360.0 - 1e-6 * mag && near(g, raw - 360.0, mag),
        what,
    );
}

/// A projected coordinate, of the stand-in's projection.
fn projected(all: (i32, i32, u32, u32), got: f32, first: i32, d: u32, k: usize, fwd: bool, scale: f64, what: &'static str) {
    let (la1, lo1, dx, dy) = all;
    let m = d as f64 * 1e-3;
    let m = if !fwd && m > 0.0 { -m } else { m };
    let want = (((first as f64 * 1e-6).to_radians() * scale + m * k as f64) / scale).to_degrees() as f32;
    if s::known(got.to_bits() as u64, want.to_bits() as u64) {
        s::check(true, what);
        return;
    }
    if !s::concrete(got.to_bits() as u64) {
        let k = s::choose(4);
        let c = [(35_500_000, -135_250_000, 3_000_000, 1_700_000), (-100_000, 359_000_000, 11_000, 25_000_500), (10_000_000, 20_000_000, 7, 500)];
        if k < 3 {
            s::prefer(la1 == c[k].0 && lo1 == c[k].1 && dx == c[k].2 && dy == c[k].3);
        }
        s::differ();
    }
    for x in [la1 as u32, lo1 as u32, dx, dy] {
        s::pin(x as u64);
    }
    let (first, d) = (s::pin(first as u32 as u64) as u32 as i32, s::pin(d as u64) as u32);
    let m = if fwd { d as f64 } else { -(d as f64) } / 1e3;
    let want = ((first as f64 / 1e6).to_radians() + m * k as f64 / scale).to_degrees();
    s::check((got as f64 - want).abs() <= 1e-6 * (want.abs() + first.abs() as f64 / 1e6), what);
}

crate::harnesses! {
    // every field of every template is taken from its octets
    fn g_fields(arg) {
        let t = TEMPLATES[arg as usize];
        let (min, ni, nj, la, lo, sc) = layout(t);
        let len = [9, 20, min - 1, min, min + 1, min + 9][s::choose(6)];
        let b = payload(t, len);
        let r = values(&b);
        if len < min {
            s::check(r.is_err(), "a section too short for its template is reported");
            s::cover(2);
            return;
        }
        if len > min && (t == 0 || t == 40) {
            s::check(r.is_err(), "lists of numbers of points are reported");
            s::cover(3);
            return;
        }
        let v = match r {
            Ok(v) => v,
            Err(_) => {
                s::check(false, "a complete grid definition is accepted");
                unreachable!()
            }
        };
        s::cover(1);
        let shape = (be32(&b, ni) as usize, be32(&b, nj) as usize);
        s::check(v.grid_shape() == shape, "the shape of the grid is Ni by Nj");
        s::check(v.short_name() == match t { 0 => "regular_ll", 20 => "polar_stereographic", 30 => "lambert", _ => "regular_gg" }, "short names follow the template");
        let i = |at: usize| sm32(be32(&b, at));
        let (la1, lo1, scan) = (i(la), i(lo), ScanningMode(b[sc]));
        let (good, s2) = match &v {
            V::Template0(d) => (
                t == 0 && d.ni as usize == shape.0 && d.nj as usize == shape.1
                    && d.first_point_lat == la1 && d.first_point_lon == lo1
                    && d.last_point_lat == i(56 - 6) && d.last_point_lon == i(60 - 6),
                d.scanning_mode,
            ),
            V::Template40(d) => (
                t == 40 && d.ni as usize == shape.0 && d.nj as usize == shape.1
                    && d.first_point_lat == la1 && d.first_point_lon == lo1
                    && d.last_point_lat == i(56 - 6) && d.last_point_lon == i(60 - 6)
                    && d.i_direction_inc == be32(&b, 64 - 6) && d.n == be32(&b, 68 - 6),
                d.scanning_mode,
            ),
            V::Template20(d) => (
                t == 20 && d.ni as usize == shape.0 && d.nj as usize == shape.1
                    && d.first_point_lat == la1 && d.first_point_lon == lo1
                    && d.lad == i(48 - 6) && d.lov == i(52 - 6)
                    && d.dx == be32(&b, 56 - 6) && d.dy == be32(&b, 60 - 6)
                    && d.projection_centre == ProjectionCentreFlag(b[64 - 6])
                    && d.projection_centre.contains_north_pole_on_projection_plane() == (b[64 - 6] & 0x80 == 0)
                    && d.projection_centre.is_bipolar() == (b[64 - 6] & 0x40 != 0)
                    && earth(&d.earth_shape, &b),
                d.scanning_mode,
            ),
            V::Template30(d) => (
                t == 30 && d.ni as usize == shape.0 && d.nj as usize == shape.1
                    && d.first_point_lat == la1 && d.first_point_lon == lo1
                    && d.lad == i(48 - 6) && d.lov == i(52 - 6)
                    && d.dx == be32(&b, 56 - 6) && d.dy == be32(&b, 60 - 6)
                    && d.latin1 == i(66 - 6) && d.latin2 == i(70 - 6)
                    && earth(&d.earth_shape, &b),
                d.scanning_mode,
            ),
        };
        s::check(good, "the fields of a grid definition are those of its octets, negative numbers as sign and magnitude");
        s::check(s2 == scan, "the scanning mode is that of its octet");
        let x = b[sc];
        s::check(
            s2.scans_positively_for_i() == (x & 0x80 == 0) && s2.scans_positively_for_j() == (x & 0x40 != 0)
                && s2.is_consecutive_for_i() == (x & 0x20 == 0) && s2.scans_alternating_rows() == (x & 0x10 != 0),
            "the scanning mode flags are the bits of flag table 3.4",
        );
    }
    // any template number, any section of `arg` octets
    fn g_any(arg) {
        let len = arg as usize;
        let b = s::bytes(len);
        match def(&b) {
            None => s::check(len < 9, "Section 3 of at least 14 octets is accepted"),
            Some(d) => {
                s::check(len >= 9, "a Section 3 without a template number is refused");
                s::check(d.num_points() == be32(&b, 1) && d.grid_tmpl_num() == be16(&b, 7), "number of points and template number");
                let known = TEMPLATES.contains(&be16(&b, 7));
                match V::try_from(&d) {
                    Ok(v) => {
                        s::check(known, "unknown grid templates are reported");
                        s::cover(1);
                        if v.ij().is_err() {
                            s::cover(3);
                        }
                    }
                    Err(_) => s::cover(2),
                }
            }
        }
    }
    // order of the points: every shape up to `arg` by `arg`, every scanning mode
    fn g_ij(arg) {
        let t = TEMPLATES[s::choose(4)];
        let (min, ni, nj, _, _, sc) = layout(t);
        let (a, c) = (s::choose(arg as u8 + 1) as u32, s::choose(arg as u8 + 1) as u32);
        let mut b = vec![0; min];
        b[8] = t as u8;
        put(&mut b, ni, a);
        put(&mut b, nj, c);
        b[sc] = s::u8();
        let scan = b[sc];
        let mut it = match values(&b).and_then(|v| v.ij()) {
            Ok(it) => {
                s::check(scan & 0xf == 0, "unsupported scanning modes are reported");
                it
            }
            Err(_) => {
                s::check(scan & 0xf != 0, "supported scanning modes are accepted");
                s::cover(2);
                return;
            }
        };
        let n = (a * c) as usize;
        for k in 0..n {
            s::check(it.size_hint() == (n - k, Some(n - k)), "size hint is the number of points left");
            let x = it.next();
            s::check(x == Some(at(a as u64, c as u64, scan, k as u64)), "points come in the order of the scanning mode, each once");
            let x = x.unwrap_or((99, 99));
            s::obs((x.0 * 100 + x.1) as u64);
        }
        s::check(it.size_hint() == (0, Some(0)), "size hint is the number of points left");
        s::check(it.next().is_none() && it.next().is_none(), "nothing after the last point");
        s::cover(1);
    }
    // the first points of grids of any size
    // long rows and columns: every point
    fn g_ij_long(arg) {
        let n = arg as u32;
        let t = TEMPLATES[s::choose(4)];
        let (a, c) = [(n, 1), (1, n), (n, 2), (2, n), (3, n - 1), (n - 1, 3), (n + 1, 0), (0, n)][s::choose(8)];
        let (min, ni, nj, _, _, sc) = layout(t);
        let mut b = vec![0; min];
        b[8] = t as u8;
        put(&mut b, ni, a);
        put(&mut b, nj, c);
        let mode = s::choose(16) as u8;
        b[sc] = mode << 4;
        let v = values(&b);
        let mut it = match v.and_then(|v| v.ij()) {
            Ok(it) => it,
            Err(_) => {
                s::check(false, "supported scanning modes are accepted");
                unreachable!()
            }
        };
        let n = (a * c) as usize;
        for k in 0..n {
            s::check(it.size_hint() == (n - k, Some(n - k)), "size hint is the number of points left");
            s::check(it.next() == Some(at(a as u64, c as u64, mode << 4, k as u64)), "points come in the order of the scanning mode, each once");
        }
        s::check(it.size_hint() == (0, Some(0)) && it.next().is_none(), "nothing after the last point");
        s::cover(1);
    }
    fn g_ij_big(arg) {
        let t = TEMPLATES[s::choose(4)];
        let (min, ni, nj, _, _, sc) = layout(t);
        let (a, c) = (s::u32(), s::u32());
        let mut b = vec![0; min];
        b[8] = t as u8;
        put(&mut b, ni, a);
        put(&mut b, nj, c);
        b[sc] = s::u8();
        let scan = b[sc];
        s::assume(scan & 0xf == 0);
        let v = values(&b);
        let mut it = match v.and_then(|v| v.ij()) {
            Ok(it) => it,
            Err(_) => {
                s::check(false, "supported scanning modes are accepted");
                unreachable!()
            }
        };
        let n = a as u64 * c as u64;
        s::check(it.size_hint() == (n as usize, Some(n as usize)), "size hint is Ni times Nj");
        for k in 0..arg {
            let x = it.next();
            if k >= n {
                s::check(x.is_none(), "nothing after the last point");
                s::cover(2);
                return;
            }
            s::check(x == Some(at(a as u64, c as u64, scan, k)), "points come in the order of the scanning mode, each once");
        }
        s::check(it.size_hint().0 as u64 == n - arg, "size hint is the number of points left");
        s::cover(1);
    }
    // coordinates of the points of regular grids up to `arg` rows and columns
    // long rows and columns of a latitude/longitude grid
    fn g_latlon_long(arg) {
        let n = arg as usize;
        let (a, c) = [(n, 1), (1, n), (n, 2), (2, n)][s::choose(4)];
        let (min, ni, nj, la, lo, sc) = layout(0);
        let mut b = s::bytes(min);
        (b[7], b[8]) = (0, 0);
        put(&mut b, ni, a as u32);
        put(&mut b, nj, c as u32);
        let mode = (s::choose(16) as u8) << 4;
        b[sc] = mode;
        let (la1, lo1, la2, lo2) = (sm32(be32(&b, la)), sm32(be32(&b, lo)), sm32(be32(&b, 56 - 6)), sm32(be32(&b, 60 - 6)));
        let down = mode & 0x40 == 0;
        let mut it = match values(&b).and_then(|v| v.latlons()) {
            Ok(it) => it,
            Err(_) => {
                s::check((down && la1 < la2) || (!down && la1 > la2), "consistent grid definitions are accepted");
                s::cover(2);
                return;
            }
        };
        let east = mode & 0x80 == 0;
        let (turn, wrap) = if east && lo1 > lo2 {
            ((0, 1), true)
        } else if !east && lo1 < lo2 {
            ((1, 0), true)
        } else {
            ((0, 0), false)
        };
        for k in 0..a * c {
            let (i, j) = at(a as u64, c as u64, mode, k as u64);
            let (lat, lon) = match it.next() {
                Some(x) => x,
                None => {
                    s::check(false, "a coordinate for every point");
                    unreachable!()
                }
            };
            degrees(lon, lo1, lo2, turn, a, i, wrap, c, "longitudes run evenly from the first to the last");
            degrees(lat, la1, la2, (0, 0), c, j, false, a, "latitudes run evenly from the first to the last");
        }
        s::check(it.next().is_none() && it.size_hint() == (0, Some(0)), "nothing after the last point");
        s::cover(1);
    }
    // rows of a Gaussian grid
    fn g_gauss_long(arg) {
        let c = [arg as usize, arg as usize / 2, 5][s::choose(3)];
        let (min, ni, nj, la, lo, sc) = layout(40);
        let mut b = s::bytes(min);
        (b[7], b[8]) = (0, 40);
        put(&mut b, ni, 1);
        put(&mut b, nj, c as u32);
        let mode = (s::choose(16) as u8) << 4;
        b[sc] = mode;
        let (la1, la2) = (sm32(be32(&b, la)), sm32(be32(&b, 56 - 6)));
        put(&mut b, lo, 0);
        put(&mut b, 60 - 6, 0);
        let down = mode & 0x40 == 0;
        let it = match values(&b).and_then(|v| v.latlons()) {
            Ok(it) => it,
            Err(_) => {
                s::check((down && la1 < la2) || (!down && la1 > la2), "consistent grid definitions are accepted");
                s::cover(2);
                return;
            }
        };
        let v: Vec<(f32, f32)> = it.collect();
        s::check(v.len() == c, "a coordinate for every point");
        let mut lats = vec![f64::NAN; c];
        for k in 0..c {
            let (_, j) = at(1, c as u64, mode, k as u64);
            lats[if down { j } else { c - 1 - j }] = v[k].0 as f64;
        }
        for j in 0..c {
            let lat = lats[j];
            s::check(lat > -90.0 && lat < 90.0 && (j == 0 || lat < lats[j - 1]), "Gaussian latitudes run in the direction of the scanning mode");
            // the Legendre polynomial of degree c and its derivative
            let x = lat.to_radians().sin();
            let (mut p0, mut p1) = (1.0, x);
            for n in 2..=c {
                (p0, p1) = (p1, ((2 * n - 1) as f64 * x * p1 - (n - 1) as f64 * p0) / n as f64);
            }
            let d = c as f64 * (p0 - x * p1) / (1.0 - x * x);
            // distance from the root, as an angle
            s::check((p1 / d / (1.0 - x * x).sqrt()).abs() < 1e-6, "Gaussian latitudes are roots of the Legendre polynomial");
        }
        s::cover(1);
    }
    fn g_latlon(arg) {
        let (gauss, max) = (arg >= 10, arg % 10);
        let t = if gauss { 40 } else { 0 };
        let (min, ni, nj, la, lo, sc) = layout(t);
        let (a, c) = (s::choose(max as u8 + 1), s::choose(max as u8 + 1));
        let mut b = s::bytes(min);
        b[7] = 0;
        b[8] = t as u8;
        put(&mut b, ni, a as u32);
        put(&mut b, nj, c as u32);
        let scan = b[sc];
        let (la1, lo1, la2, lo2) = (sm32(be32(&b, la)), sm32(be32(&b, lo)), sm32(be32(&b, 56 - 6)), sm32(be32(&b, 60 - 6)));
        let mode = (s::each((scan >> 4) as u64) << 4) as u8;
        let down = scan & 0x40 == 0;
        let mut it = match values(&b).and_then(|v| v.latlons()) {
            Ok(it) => it,
            Err(_) => {
                s::check(scan & 0xf != 0 || (down && la1 < la2) || (!down && la1 > la2), "consistent grid definitions are accepted");
                s::cover(2);
                return;
            }
        };
        s::check(scan & 0xf == 0, "unsupported scanning modes are reported");
        s::check(!(down && la1 < la2) && !(!down && la1 > la2), "latitudes in the other order than the scanning mode says are reported");
        // west to east longitudes may pass the meridian, and the other way round
        let east = scan & 0x80 == 0;
        let (turn, wrap) = if east && lo1 > lo2 {
            ((0, 1), true)
        } else if !east && lo1 < lo2 {
            ((1, 0), true)
        } else {
            ((0, 0), false)
        };
        if wrap {
            s::cover(3);
        }
        let n = a * c;
        let mut lats = vec![f32::NAN; c];
        for k in 0..n {
            s::check(it.size_hint() == (n - k, Some(n - k)), "size hint is the number of points left");
            let (i, j) = at(a as u64, c as u64, mode, k as u64);
            let (lat, lon) = match it.next() {
                Some(x) => x,
                None => {
                    s::check(false, "a coordinate for every point");
                    unreachable!()
                }
            };
            if gauss {
                lats[j] = lat;
            } else {
                degrees(lat, la1, la2, (0, 0), c, j, false, a, "latitudes run evenly from the first to the last");
            }
            degrees(lon, lo1, lo2, turn, a, i, wrap, c, "longitudes run evenly from the first to the last");
        }
        s::check(it.next().is_none() && it.size_hint() == (0, Some(0)), "nothing after the last point");
        if gauss && n > 0 {
            // roots of the Legendre polynomials of degree 1..4 as latitudes
            let roots: &[f64] = match c {
                1 => &[0.0],
                2 => &[35.26438968275465, -35.26438968275465],
                3 => &[50.76847951640775, 0.0, -50.76847951640775],
                _ => &[59.44440828916677, 19.87571914744090, -19.87571914744090, -59.44440828916677],
            };
            for j in 0..c {
                let want = if down { roots[j] } else { roots[c - 1 - j] };
                s::check((lats[j] as f64 - want).abs() < 1e-4, "Gaussian latitudes run in the direction of the scanning mode");
            }
        }
        s::cover(1);
    }
    // grid accessors of a submessage agree with Section 3 or report a mismatch
    fn g_sub(arg) {
        let t = [TEMPLATES[0], TEMPLATES[3]][s::choose(2)];
        let (min, ni, nj, _, _, sc) = layout(t);
        let (a, c) = (s::u32(), s::u32());
        let mut b = vec![0u8; min];
        b[8] = t as u8;
        put(&mut b, ni, a);
        put(&mut b, nj, c);
        b[sc] = s::u8();
        let np = s::u32();
        put(&mut b, 1, np);
        let lat = arg == 1;
        if lat {
            s::assume(a < 3 && c < 3);
            s::each(a as u64);
            s::each(c as u64);
        }
        let mut m = Msg::begin(vec![], 0);
        m.sect(1, &[0; 16]);
        m.sect(3, &b);
        m.sect(4, &[0; 4]);
        m.sect(5, &[0; 6]);
        m.sect(6, &[255]);
        m.sect(7, &[]);
        let g = match from_reader(Cursor::new(m.end().0)) {
            Ok(g) => g,
            Err(_) => {
                s::check(false, "a well-formed message is accepted");
                unreachable!()
            }
        };
        let (_, sm) = g.iter().next().unwrap();
        s::check(matches!(sm.grid_shape(), Ok(x) if x == (a as usize, c as usize)), "grid_shape is Ni by Nj");
        let n = a as u64 * c as u64;
        let len = if lat {
            sm.latlons().map(|x| x.count() as u64)
        } else {
            sm.ij().map(|x| x.size_hint().0 as u64)
        };
        match len {
            Ok(x) => {
                s::check(np as u64 == n && x == n, "a grid whose shape has another number of points than Section 3 says is reported");
                s::cover(1);
            }
            Err(_) => {
                s::check(b[sc] & 0xf != 0 || np as u64 != n, "a consistent grid definition is accepted");
                s::cover(2);
            }
        }
    }
    // axes of the Earth
    fn g_radii(arg) {
        let b: [u8; 16] = s::arr();
        let e = EarthShapeDefinition {
            shape_of_the_earth: b[0],
            scale_factor_of_radius_of_spherical_earth: b[1],
            scaled_value_of_radius_of_spherical_earth: be32(&b, 2),
            scale_factor_of_earth_major_axis: b[6],
            scaled_value_of_earth_major_axis: be32(&b, 7),
            scale_factor_of_earth_minor_axis: b[11],
            scaled_value_of_earth_minor_axis: be32(&b, 12),
        };
        s::each(b[0].min(9) as u64);
        let r = match e.radii() {
            Some(r) => r,
            None => {
                s::check(b[0] > 8, "every shape of code table 3.2 up to 8 has axes");
                s::cover(2);
                return;
            }
        };
        s::check(b[0] <= 8, "unknown shapes of the Earth have no axes");
        let fixed = match b[0] {
            0 => (6367470.0, 6367470.0),
            2 => (6378160.0, 6356775.0),
            4 => (6378137.0, 6356752.314),
            5 => (6378137.0, 6356752.314245),
            6 => (6371229.0, 6371229.0),
            8 => (6371200.0, 6371200.0),
            _ => {
                let k = if b[0] == 3 { 1000.0 } else { 1.0 };
                let of = |at: usize, x: f64| {
                    let (f, v) = (sm8(b[at]), be32(&b, at + 1));
                    let w = v as f64 * 10f64.powi(-f);
                    let want = if b[0] == 3 { w * 1000.0 } else { w };
                    if !s::known(x.to_bits(), want.to_bits()) {
                        s::differ();
                        let f = s::each((f + 128) as u64) as i32 - 128;
                        let v = s::pin(v as u64) as u32;
                        let want = v as f64 * 10f64.powi(-f) * k;
                        s::check((x - want).abs() <= 1e-9 * want, "axes are scaled value / 10^factor, in km for shape 3");
                    }
                };
                if b[0] == 1 {
                    of(1, r.0);
                    of(1, r.1);
                } else {
                    of(6, r.0);
                    of(11, r.1);
                }
                s::check(true, "axes are scaled value / 10^factor, in km for shape 3");
                s::cover(1);
                return;
            }
        };
        s::check((r.0 - fixed.0 as f64).abs() < 1e-3 && (r.1 - fixed.1 as f64).abs() < 1e-3, "axes of code table 3.2");
        s::cover(3);
    }
    // projected grids: what is handed to PROJ and what is made of its answer
    fn g_proj(arg) {
        let t = [20, 30][arg as usize % 2];
        let (min, ni, nj, la, lo, sc) = layout(t);
        let (a, c) = (s::choose(3), s::choose(3));
        let mut b = s::bytes(min);
        b[7] = 0;
        b[8] = t as u8;
        put(&mut b, ni, a as u32);
        put(&mut b, nj, c as u32);
        // these end up in a string
        b[9] = [6, 1, 5, 9][s::choose(4)];
        b[10] = [0, 1, 0x81][s::choose(3)];
        put(&mut b, 11, 6371200);
        let deg = [0i32, 60_000_000, -30_500_000, 135_000_000];
        let raw = |x: i32| if x < 0 { x.unsigned_abs() | 1 << 31 } else { x as u32 };
        let k = s::choose(4);
        let p = [deg[k], deg[(k + 1) % 4], deg[(k + 2) % 4], deg[(k + 3) % 4]];
        put(&mut b, 48 - 6, raw(p[0]));
        put(&mut b, 52 - 6, raw(p[1]));
        if t == 30 {
            put(&mut b, 66 - 6, raw(p[2]));
            put(&mut b, 70 - 6, raw(p[3]));
        } else {
            b[64 - 6] = [0, 0x80, 0xc0, 0x20, 0x81][s::choose(5)];
        }
        let fail = s::choose(4) as u8;
        *proj::FAIL.lock().unwrap() = fail;
        proj::LAST.lock().unwrap().clear();
        let scan = b[sc];
        let flag = if t == 20 { b[64 - 6] } else { 0 };
        let mut it = match values(&b).and_then(|v| v.latlons()) {
            Ok(it) => it,
            Err(_) => {
                s::check(scan & 0xf != 0 || b[9] == 9 || flag & 0x3f != 0 || fail != 0, "consistent grid definitions are accepted");
                s::cover(2);
                return;
            }
        };
        s::check(scan & 0xf == 0, "unsupported scanning modes are reported");
        s::check(b[9] != 9, "unknown shapes of the Earth are reported");
        s::check(flag & 0x3f == 0, "unknown projection centre flags are reported");
        s::check(fail == 0, "failures of the projection are reported");
        let def = proj::LAST.lock().unwrap().clone();
        let (ra, rb) = match b[9] {
            1 => (6371200.0 / [1.0, 10.0, 0.1][if b[10] == 0 { 0 } else if b[10] == 1 { 1 } else { 2 }], 6371200.0 / [1.0, 10.0, 0.1][if b[10] == 0 { 0 } else if b[10] == 1 { 1 } else { 2 }]),
            5 => (6378137.0, 6356752.314245),
            _ => (6371229.0, 6371229.0),
        };
        let d = |k: usize| p[k] as f64 / 1e6;
        let want: Vec<(&str, f64)> = if t == 30 {
            vec![("+a", ra), ("+b", rb), ("+lat_0", d(0)), ("+lon_0", d(1)), ("+lat_1", d(2)), ("+lat_2", d(3))]
        } else {
            vec![("+a", ra), ("+b", rb), ("+lat_ts", d(0)), ("+lon_0", d(1)), ("+lat_0", if flag & 0x80 == 0 { 90.0 } else { -90.0 })]
        };
        for (k, x) in &want {
            let got = def.split_whitespace().find_map(|w| w.split_once('=').filter(|w| w.0 == *k)).and_then(|w| w.1.parse::<f64>().ok());
            s::check(matches!(got, Some(g) if (g - x).abs() <= 1e-9 * (x.abs() + 1.0)), "the projection is that of the grid definition");
        }
        s::check(def.split_whitespace().any(|w| w == if t == 30 { "+proj=lcc" } else { "+proj=stere" }), "the projection is that of the grid definition");
        let n = a * c;
        let (la1, lo1) = (sm32(be32(&b, la)), sm32(be32(&b, lo)));
        let (dx, dy) = (be32(&b, 56 - 6), be32(&b, 60 - 6));
        for k in 0..n {
            let (i, j) = at(a as u64, c as u64, scan, k as u64);
            let (lat, lon) = match it.next() {
                Some(x) => x,
                None => {
                    s::check(false, "a coordinate for every point");
                    unreachable!()
                }
            };
            let all = (la1, lo1, dx, dy);
            projected(all, lon, lo1, dx, i, scan & 0x80 == 0, 2.0, "points are Dx metres apart from the first point in the direction of the scanning mode");
            projected(all, lat, la1, dy, j, scan & 0x40 != 0, 4.0, "points are Dy metres apart from the first point in the direction of the scanning mode");
        }
        s::check(it.next().is_none(), "nothing after the last point");
        s::cover(1);
    }
    // long rows and columns of projected grids
    fn g_proj_long(arg) {
        let n = arg as usize;
        let t = [20, 30][s::choose(2)];
        let (a, c) = [(n, 1), (1, n), (n, 2), (2, n)][s::choose(4)];
        let (min, ni, nj, la, lo, sc) = layout(t);
        let mut b = s::bytes(min);
        b[7] = 0;
        b[8] = t as u8;
        put(&mut b, ni, a as u32);
        put(&mut b, nj, c as u32);
        b[9] = 6;
        for k in [48 - 6, 52 - 6] {
            put(&mut b, k, 60_000_000);
        }
        if t == 30 {
            put(&mut b, 66 - 6, 30_000_000);
            put(&mut b, 70 - 6, 30_000_000);
        } else {
            b[64 - 6] = 0;
        }
        let mode = (s::choose(16) as u8) << 4;
        b[sc] = mode;
        *proj::FAIL.lock().unwrap() = 0;
        let mut it = match values(&b).and_then(|v| v.latlons()) {
            Ok(it) => it,
            Err(_) => return s::check(false, "consistent grid definitions are accepted"),
        };
        let all = (sm32(be32(&b, la)), sm32(be32(&b, lo)), be32(&b, 56 - 6), be32(&b, 60 - 6));
        for k in 0..a * c {
            let (i, j) = at(a as u64, c as u64, mode, k as u64);
            let (lat, lon) = match it.next() {
                Some(x) => x,
                None => {
                    s::check(false, "a coordinate for every point");
                    unreachable!()
                }
            };
            projected(all, lon, all.1, all.2, i, mode & 0x80 == 0, 2.0, "points are Dx metres apart from the first point in the direction of the scanning mode");
            projected(all, lat, all.0, all.3, j, mode & 0x40 != 0, 4.0, "points are Dy metres apart from the first point in the direction of the scanning mode");
        }
        s::check(it.next().is_none(), "nothing after the last point");
        s::cover(1);
    }
}
