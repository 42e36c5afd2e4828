//! Product definitions, times, surfaces, code tables.
use crate::{s, util::*};
use chrono::{Datelike, Timelike};
use grib::codetables::{grib2::Table4_4, *};
use grib::*;
use std::io::Cursor;

/// WMO layout of the product definition templates the library supports: octets of the type of
/// generating process, the unit of the forecast time, the first fixed surface; 0 where there is none.
fn wmo(t: u16) -> Option<(usize, usize, usize)> {
    Some(match t {
        0..=15 | 51 | 60 | 61 | 91 | 1100 | 1101 => (12, 18, 23),
        20 | 30 | 31 | 35 | 254 => (12, 0, 0),
        32..=34 | 1000..=1002 => (12, 18, 0),
        40..=43 => (14, 20, 25),
        44 => (25, 31, 34),
        45 | 46 => (25, 31, 36),
        48 | 49 => (36, 42, 47),
        55 | 56 | 59 | 62 | 63 => (18, 24, 29),
        70..=73 => (17, 23, 28),
        76..=79 => (15, 21, 26),
        80 | 81 => (37, 43, 48),
        82 | 84 => (26, 32, 37),
        85 => (25, 31, 36),
        86 | 87 => (12, 18, 23),
        88 => (12, 36, 15),
        // layout depends on other octets: only category and number
        53 | 54 | 57 | 58 | 67 | 68 => (0, 0, 0),
        _ => return None,
    })
}

fn surface(b: &[u8], octet: usize) -> Option<(u8, i32, i32)> {
    let k = octet - 6;
    if k + 6 <= b.len() {
        Some((b[k], sm8(b[k + 1]), sm32(be32(b, k + 2))))
    } else {
        None
    }
}

fn unit(x: u8) -> Option<Table4_4> {
    use Table4_4::*;
    Some(match x {
        0 => Minute,
        1 => Hour,
        2 => Day,
        3 => Month,
        4 => Year,
        5 => Decade,
        6 => Normal,
        7 => Century,
        10 => ThreeHours,
        11 => SixHours,
        12 => TwelveHours,
        13 => Second,
        255 => Missing,
        _ => return None,
    })
}

fn same_unit(got: &Code<Table4_4, u8>, x: u8) -> bool {
    match (got, unit(x)) {
        (Code::Name(a), Some(b)) => *a == b,
        (Code::Num(a), None) => *a == x,
        _ => false,
    }
}

/// decimal digits of x
pub fn dec(x: u64) -> String {
    let mut d = vec![];
    let mut x = x;
    loop {
        d.push(b'0' + (x % 10) as u8);
        x /= 10;
        if x == 0 {
            break;
        }
    }
    d.reverse();
    String::from_utf8(d).unwrap_or_default()
}

fn sdec(x: i64) -> String {
    if x < 0 {
        "-".to_owned() + &dec(x.unsigned_abs())
    } else {
        dec(x as u64)
    }
}

/// text of code `n` of the stand-in table `name`
fn entry(name: Option<&str>, n: usize) -> Option<String> {
    let name = name?;
    match n {
        0 | 1 | 3 => Some(name.to_owned() + "#" + &dec(n as u64)),
        2 => Some(String::new()),
        _ => None,
    }
}
pub fn shown(name: Option<&str>, n: usize) -> String {
    entry(name, n).unwrap_or_else(|| "code '".to_owned() + &dec(n as u64) + "' is not implemented")
}

fn table41(d: u8) -> Option<&'static str> {
    Some(match d {
        0 => "4.1.0",
        1 => "4.1.1",
        2 => "4.1.2",
        3 => "4.1.3",
        4 => "4.1.4",
        10 => "4.1.10",
        20 => "4.1.20",
        _ => return None,
    })
}
pub fn table42(d: u8, c: u8) -> Option<String> {
    let known = match d {
        0 => c <= 7 || (13..=20).contains(&c) || c == 190 || c == 191,
        1 => c <= 2,
        2 => c == 0 || (3..=5).contains(&c),
        3 => c <= 6,
        4 => c <= 10,
        10 => c <= 4 || c == 191,
        20 => c <= 2,
        _ => false,
    };
    if known {
        Some("4.2.".to_owned() + &dec(d as u64) + "." + &dec(c as u64))
    } else {
        None
    }
}

/// days since 1970-01-01 of a Gregorian date
fn days(y: i64, m: i64, d: i64) -> i64 {
    // days before the year, counted from year 0
    let before = |y: i64| {
        if y <= 0 {
            0
        } else {
            365 * y + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 + 1
        }
    };
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    before(y) + cum[(m - 1) as usize] + (leap && m > 2) as i64 + d - 1 - before(1970)
}

crate::harnesses! {
    // any product definition section with `arg` octets of payload
    fn p_prod(arg) {
        let b = s::bytes(arg as usize);
        let t = be16(&b, 2);
        let p = match ProdDefinition::from_payload(b.clone().into_boxed_slice()) {
            Ok(p) => p,
            Err(_) => {
                s::check(false, "Section 4 of at least 9 octets is accepted");
                unreachable!()
            }
        };
        s::check(p.prod_tmpl_num() == t && p.num_coordinates() == be16(&b, 0), "template number and number of coordinates");
        if t == 47 || t == 83 {
            return;
        }
        let known = wmo(t);
        let (gen, time, surf) = known.unwrap_or((0, 0, 0));
        let octet = |n: usize| if known.is_some() && n > 0 { b.get(n - 6).copied() } else { None };
        s::check(p.parameter_category() == octet(10), "the parameter category is octet 10");
        s::check(p.parameter_number() == octet(11), "the parameter number is octet 11");
        s::check(p.generating_process() == octet(gen), "the type of generating process is that of its octet");
        let len = if t == 44 { 2 } else { 4 };
        let want = if time > 0 && time - 6 + 1 + len <= b.len() {
            let v = if len == 2 { be16(&b, time - 5) as u32 } else { be32(&b, time - 5) };
            Some((b[time - 6], v))
        } else {
            None
        };
        match (p.forecast_time(), want) {
            (Some(f), Some((u, v))) => {
                s::check(f.value == v, "the forecast time is that of its octets");
                s::check(same_unit(&f.unit, u), "the unit of the forecast time is that of code table 4.4");
                s::cover(1);
            }
            (f, w) => s::check(f.is_none() == w.is_none(), "a forecast time where the template has one"),
        }
        let want = if surf > 0 { surface(&b, surf).zip(surface(&b, surf + 6)) } else { None };
        match (p.fixed_surfaces(), want) {
            (Some(f), Some(w)) => {
                let one = |f: &FixedSurface, w: (u8, i32, i32)| f.surface_type == w.0 && f.scale_factor as i32 == w.1 && f.scaled_value == w.2;
                s::check(one(&f.0, w.0) && one(&f.1, w.1), "fixed surfaces are those of their octets, negative numbers as sign and magnitude");
                s::cover(2);
            }
            (f, w) => s::check(f.is_none() == w.is_none(), "fixed surfaces where the template has them"),
        }
        if known.is_none() {
            s::cover(3);
        }
    }
    // smallest sections
    fn p_sizes(arg) {
        let len = s::choose(20);
        let b = || s::bytes(len).into_boxed_slice();
        match arg {
            0 => match Identification::from_payload(b()) {
                Ok(x) => s::check(len >= 16 && x.iter().count() == len, "Section 1 has at least 21 octets"),
                Err(BuildError::SectionSizeTooSmall(n)) => s::check(len < 16 && n == len, "Section 1 has at least 21 octets"),
            },
            1 => match GridDefinition::from_payload(b()) {
                Ok(x) => s::check(len >= 9 && x.iter().count() == len, "Section 3 has at least 14 octets"),
                Err(BuildError::SectionSizeTooSmall(n)) => s::check(len < 9 && n == len, "Section 3 has at least 14 octets"),
            },
            2 => match ProdDefinition::from_payload(b()) {
                Ok(x) => s::check(len >= 4 && x.iter().count() == len, "Section 4 has at least 9 octets"),
                Err(BuildError::SectionSizeTooSmall(n)) => s::check(len < 4 && n == len, "Section 4 has at least 9 octets"),
            },
            3 => match ReprDefinition::from_payload(b()) {
                Ok(x) => s::check(len >= 6 && x.iter().count() == len, "Section 5 has at least 11 octets"),
                Err(BuildError::SectionSizeTooSmall(n)) => s::check(len < 6 && n == len, "Section 5 has at least 11 octets"),
            },
            _ => s::check(LocalUse::from_payload(b()).iter().count() == len, "Section 2 has any length"),
        }
        s::cover(1);
    }
    // reference time: 0 any date of any year, 1 any time of day, 2 any date of some years
    fn p_reftime(arg) {
        let mut b = s::bytes(16);
        if arg == 2 {
            b[7..9].copy_from_slice(&[[0, 0], [0, 4], [7, 108], [7, 178], [7, 208], [7, 231], [7, 232], [8, 52], [255, 255]][s::choose(9)]);
        }
        if arg != 1 {
            b[11] = [0, 23][s::choose(2)];
            b[12] = 59;
            b[13] = 59;
        } else {
            let k = s::choose(3);
            b[7..11].copy_from_slice(&[[7, 208, 2, 29], [7, 227, 2, 28], [7, 108, 2, 29]][k]);
        }
        let (y, mo, d, h, mi, se) = (be16(&b, 7) as i64, b[9] as i64, b[10] as i64, b[11] as i64, b[12] as i64, b[13] as i64);
        let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let last = match mo {
            2 => 28 + leap as i64,
            4 | 6 | 9 | 11 => 30,
            _ => 31,
        };
        let valid = (1..=12).contains(&mo) && (1..=last).contains(&d) && h < 24 && mi < 60 && se < 60;
        let id = match Identification::from_payload(b.clone().into_boxed_slice()) {
            Ok(x) => x,
            Err(_) => {
                s::check(false, "Section 1 has at least 21 octets");
                unreachable!()
            }
        };
        match id.ref_time() {
            Ok(t) => {
                s::check(valid, "a reference time that does not exist is reported");
                s::cover(1);
                if arg == 0 {
                    // month and day of any year are a table of 400 years in chrono; left to the other two modes
                    s::check(t.year() as i64 == y && t.minute() as i64 == mi && t.second() as i64 == se, "the reference time is that of its octets");
                    return;
                }
                let mo = s::each(mo as u64) as i64;
                s::check(
                    t.year() as i64 == y && t.month() as i64 == mo && t.day() as i64 == d && t.hour() as i64 == h && t.minute() as i64 == mi && t.second() as i64 == se,
                    "the reference time is that of its octets",
                );
                let want = days(y, mo, d) * 86400 + h * 3600 + mi * 60 + se;
                s::check(t.timestamp() == want && t.timestamp_subsec_nanos() == 0, "the reference time is that of its octets, in UTC");
            }
            Err(_) => {
                s::check(!valid, "a reference time that exists is accepted");
                s::cover(2);
            }
        }
    }
    // units and values of forecast times, and their text
    fn p_time(arg) {
        let (u, v) = (s::u8(), s::u32());
        let f = ForecastTime::from_numbers(u, v);
        s::check(f.value == v && same_unit(&f.unit, u), "unit and value of a forecast time");
        let g = match unit(u) {
            Some(n) => ForecastTime::new(Code::Name(n), v),
            None => ForecastTime::new(Code::Num(u), v),
        };
        s::check(f == g, "named units are those of code table 4.4");
        // text of a few values with every unit
        let u = s::each(u as u64) as u8;
        let c = [0, 7, 10, 99, 100, 65535, 123456, u32::MAX];
        let v = c[s::choose(8)];
        let f = ForecastTime::from_numbers(u, v);
        let names = ["Minute", "Hour", "Day", "Month", "Year", "Decade", "Normal", "Century", "", "", "ThreeHours", "SixHours", "TwelveHours", "Second"];
        let short = ["m", "h", "D", "M", "Y", "10Y", "30Y", "C", "", "", "3h", "6h", "12h", "s"];
        let (name, text) = match unit(u) {
            Some(Table4_4::Missing) => ("Missing".to_owned(), dec(v as u64)),
            Some(_) => (names[u as usize].to_owned(), dec(v as u64) + " [" + short[u as usize] + "]"),
            None => ("code ".to_owned() + &dec(u as u64), dec(v as u64) + " [unit: " + &dec(u as u64) + "]"),
        };
        s::check(f.describe() == (name, dec(v as u64)), "describe() gives the unit's name and the value");
        s::check(f.to_string() == text, "the text of a forecast time is its value and unit");
        s::cover(1);
    }
    // value, unit and missing marks of fixed surfaces
    fn p_surface(arg) {
        let o: [u8; 6] = s::arr();
        let (f, v) = (sm8(o[1]), sm32(be32(&o, 2)));
        let x = FixedSurface::new(o[0], f as i8, v);
        s::check(x.scale_factor_is_nan() == (o[1] == 0xff), "a scale factor of all ones is missing");
        s::check(x.value_is_nan() == (be32(&o, 2) == u32::MAX), "a scaled value of all ones is missing");
        let got = x.value();
        if be32(&o, 2) == u32::MAX {
            s::check(got.is_nan(), "a missing value is not a number");
            s::cover(1);
        } else if o[1] != 0xff {
            let want = v as f64 * 10f64.powi(-f);
            if !s::known(got.to_bits(), want.to_bits()) {
                s::differ();
                let f = s::each((f + 128) as u64) as i32 - 128;
                let v = s::pin(v as u32 as u64) as u32 as i32;
                let want = v as f64 * 10f64.powi(-f);
                s::check((got - want).abs() <= 1e-9 * want.abs(), "the value of a surface is scaled value / 10^factor");
            } else {
                s::check(true, "the value of a surface is scaled value / 10^factor");
            }
            s::cover(2);
        }
        let want = match o[0] {
            11 | 12 | 26 | 27 | 30 | 102 | 103 | 106 | 117 | 160 | 161 => Some("m"),
            13 => Some("%"),
            18 | 100 | 108 => Some("Pa"),
            20 | 107 | 170 => Some("K"),
            21 | 22 | 169 => Some("kg m-3"),
            23 | 24 => Some("Bq m-3"),
            25 => Some("dBZ"),
            104 => Some("\"sigma\" value"),
            109 => Some("K m2 kg-1 s-1"),
            114 | 151 | 152 | 168 => Some("Numeric"),
            171 => Some("m2 s-1"),
            _ => None,
        };
        s::check(x.unit() == want, "units of code table 4.5");
    }
    // text of fixed surfaces
    fn p_surface_text(arg) {
        let (t, f) = (s::u8(), s::u8());
        let t = s::each(t as u64) as u8;
        s::assume(t < 6 || t > 250);
        s::assume(f & 0x7f < 12 || f & 0x7f > 98 && f & 0x7f < 102 || f & 0x7f > 124);
        let f = sm8(s::each(f as u64) as u8);
        let c = [0, 1, -1, 100, -850, 2147483647, -2147483647, -2147483646];
        let v = c[s::choose(8)];
        let x = FixedSurface::new(t, f as i8, v);
        let factor = if f == -127 { "Missing".to_owned() } else { sdec(f as i64) };
        let value = if v == -2147483647 { "Missing".to_owned() } else { sdec(v as i64) };
        s::check(x.describe() == (shown(Some("4.5"), t as usize), factor, value), "describe() gives the surface's type, factor and value");
        s::cover(1);
    }
    // parameters against third-party codes
    fn p_param(arg) {
        let p = Parameter { discipline: s::u8(), centre: s::u16(), master_ver: s::u8(), local_ver: s::u8(), category: s::u8(), num: s::u8() };
        let id = (p.discipline, p.category, p.num);
        s::check(p.is_identical_to(NCEP::PRES) == (id == (0, 3, 0)), "PRES is parameter 0.3.0");
        s::check(p.is_identical_to(NCEP::PRMSL) == (id == (0, 3, 1)), "PRMSL is parameter 0.3.1");
        s::check(p.is_identical_to(NCEP::HGT) == (id == (0, 3, 5)), "HGT is parameter 0.3.5");
        match NCEP::try_from(&p) {
            Ok(c) => {
                let n: u32 = c.into();
                s::check(n == (id.0 as u32) << 16 | (id.1 as u32) << 8 | id.2 as u32, "codes are discipline, category and number");
                s::cover(1);
            }
            Err(_) => s::cover(2),
        }
    }
    // code tables
    fn p_tables(arg) {
        let (d, c) = (s::u8(), s::u8());
        let n = [0usize, 1, 2, 3, 4, 255, 65535][s::choose(7)];
        let (got, shown_, want, text): (Option<String>, String, Option<String>, String);
        let look = |r: LookupResult| (r.description(), r.to_string());
        if arg == 0 {
            // 4.2 and the description of a parameter
            s::assume(d < 6 || d == 10 || d == 20 || d == 255);
            s::assume(c < 22 || c > 188 && c < 193 || c == 255);
            let (d, c) = (s::each(d as u64) as u8, s::each(c as u64) as u8);
            let name = table42(d, c);
            (got, shown_) = look(CodeTable4_2::new(d, c).lookup(n));
            want = entry(name.as_deref(), n);
            text = shown(name.as_deref(), n);
            if n < 256 {
                let p = Parameter { discipline: d, centre: 0, master_ver: 0, local_ver: 0, category: c, num: n as u8 };
                s::check(p.description() == want, "parameters are described by table 4.2 of their discipline and category");
            }
        } else if arg == 1 {
            s::each(d as u64);
            let name = table41(d);
            (got, shown_) = look(CodeTable4_1::new(d).lookup(n));
            want = entry(name, n);
            text = shown(name, n);
        } else {
            let k = s::choose(14);
            let name = ["C00", "C11", "0.0", "1.1", "1.2", "1.3", "1.4", "3.1", "4.0", "4.3", "4.4", "4.5", "5.0", ""][k];
            (got, shown_) = match k {
                0 => look(CommonCodeTable00.lookup(n)),
                1 => look(CommonCodeTable11.lookup(n)),
                2 => look(CodeTable0_0.lookup(n)),
                3 => look(CodeTable1_1.lookup(n)),
                4 => look(CodeTable1_2.lookup(n)),
                5 => look(CodeTable1_3.lookup(n)),
                6 => look(CodeTable1_4.lookup(n)),
                7 => look(CodeTable3_1.lookup(n)),
                8 => look(CodeTable4_0.lookup(n)),
                9 => look(CodeTable4_3.lookup(n)),
                10 => look(CodeTable4_4.lookup(n)),
                11 => look(CodeTable4_5.lookup(n)),
                12 => look(CodeTable5_0.lookup(n)),
                _ => {
                    // template descriptions
                    let num = s::choose(9) as u8;
                    let t = TemplateInfo(num, n as u16);
                    let name = match num {
                        3 => Some("3.1"),
                        4 => Some("4.0"),
                        5 => Some("5.0"),
                        _ => None,
                    };
                    s::check(t.describe() == name.map(|x| shown(Some(x), n)), "templates are described by the table of their section");
                    s::check(t.to_string() == dec(num as u64) + "." + &dec(n as u64), "the text of a template is section.number");
                    s::cover(1);
                    return;
                }
            };
            want = entry(Some(name), n);
            text = shown(Some(name), n);
        }
        s::check(got == want, "a code is described by its own table, unknown codes are not");
        s::check(shown_ == text, "unknown codes are shown as not implemented");
        s::cover(1);
    }
    // parameter() and describe() of a submessage
    fn p_sub(arg) {
        let mut m = Msg::begin(vec![], s::u8());
        let s1 = s::bytes(16);
        m.sect(1, &s1);
        let text = arg == 1;
        let mut s3 = s::bytes(9);
        let mut s4 = s::bytes(4 + 13 + 12);
        let mut s5 = s::bytes(6);
        let t = if text { [0u16, 1, 20, 99][s::choose(4)] } else { s::u16() };
        s4[2..4].copy_from_slice(&t.to_be_bytes());
        if text {
            m.b[6] = [0, 10, 99][s::choose(3)];
            s3[1..5].copy_from_slice(&[1, 2, 3, 4]);
            s3[7..9].copy_from_slice(&[0, 3]);
            s4[4..7].copy_from_slice(&[[0, 1, 3], [1, 3, 9], [200, 3, 0]][s::choose(3)]);
            s4[12..17].copy_from_slice(&[[1, 0, 0, 0, 6], [9, 0, 1, 0, 0]][s::choose(2)]);
            s4[17..29].copy_from_slice(&[[0, 0x82, 0, 0, 0, 5, 3, 255, 255, 255, 255, 255], [1, 2, 0x80, 0, 3, 0, 9, 0, 0, 0, 0, 0]][s::choose(2)]);
            s5.copy_from_slice(&[0, 0, 4, 0, 0, 1]);
        }
        let d = m.b[6];
        m.sect(3, &s3);
        m.sect(4, &s4);
        m.sect(5, &s5);
        m.sect(6, &[255]);
        m.sect(7, &[]);
        let g = match from_reader(Cursor::new(m.end().0)) {
            Ok(g) => g,
            Err(_) => {
                s::check(false, "a well-formed message is accepted");
                unreachable!()
            }
        };
        let (_, x) = g.iter().next().unwrap();
        let known = wmo(t).is_some() || t == 47 || t == 83;
        match x.parameter() {
            Some(p) => {
                s::check(known, "unknown product templates have no parameter");
                let want = Parameter { discipline: d, centre: be16(&s1, 0), master_ver: s1[4], local_ver: s1[5], category: s4[4], num: s4[5] };
                s::check(p == want, "a parameter is that of Sections 0, 1 and 4");
                s::cover(1);
            }
            None => {
                s::check(!known, "known product templates have a parameter");
                s::cover(2);
            }
        }
        if text {
            let v41 = if known { shown(table41(d), s4[4] as usize) } else { String::new() };
            let v42 = if known { shown(table42(d, s4[4]).as_deref(), s4[5] as usize) } else { String::new() };
            let v43 = if known { shown(Some("4.3"), s4[6] as usize) } else { String::new() };
            let timed = t < 2;
            let none = || String::new();
            let (ft, fu) = if timed { (dec(be32(&s4, 13) as u64), if s4[12] == 1 { "Hour".to_owned() } else { "code 9".to_owned() }) } else { (none(), none()) };
            let miss = |b: bool, x: i64| if b { "Missing".to_owned() } else { sdec(x) };
            let sf = |k: usize| if timed {
                let (a, b, c) = (s4[k], s4[k + 1], be32(&s4, k + 2));
                (shown(Some("4.5"), a as usize), miss(b == 255, sm8(b) as i64), miss(c == u32::MAX, sm32(c) as i64))
            } else {
                (none(), none(), none())
            };
            let (f1, f2) = (sf(17), sf(23));
            let want = [
                "3.1#3".to_owned(), dec(0x1020304), shown(Some("4.0"), t as usize), v41, v42, v43, ft, fu,
                f1.0, f1.1, f1.2, f2.0, f2.1, f2.2, "5.0#1".to_owned(), "1024".to_owned(),
            ];
            let got = x.describe();
            let lines: Vec<&str> = got.lines().collect();
            s::check(lines.len() == want.len(), "describe() has a line for each item");
            for (l, w) in lines.iter().zip(&want) {
                s::check(l.split_once(':').map(|x| x.1.trim()) == Some(w.as_str()), "describe() shows the submessage's own values");
            }
            s::cover(3);
        }
    }
}
