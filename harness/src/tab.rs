//! Code tables: from CSV files to the text of Rust constants; parameter codes.
use crate::s;
use grib_build::{cct_csv, grib2_codeflag_csv as flag, grib2_codeflag_csv::OptArg, CodeRange};

/// `n` decimal digits below `b'0' + top`
pub fn digits(n: usize, top: u8) -> Vec<u8> {
    let d = s::bytes(n);
    for x in &d {
        s::assume(*x >= b'0' && *x < b'0' + top);
    }
    d
}
pub fn num(d: &[u8]) -> usize {
    let mut v = 0;
    for x in d {
        v = v * 10 + (*x - b'0') as usize;
    }
    v
}
pub fn text(b: &[u8]) -> &str {
    match std::str::from_utf8(b) {
        Ok(x) => x,
        Err(_) => unreachable!(),
    }
}

/// One row: its code column, the range it stands for, its meaning (None for codes without one).
struct Row {
    code: Vec<u8>,
    range: Option<(usize, usize)>,
    shown: String,
    named: bool,
}

/// Any row: no code, a text, a code or a range of codes; a name or one of the marks for no meaning.
fn row(k: usize, top: u8, forms: u8) -> Row {
    let (code, range) = match s::choose(forms) + 4 - forms as usize {
        0 => (vec![], None),
        1 => (b"Not applicable".to_vec(), None),
        2 => {
            let d = digits(1, top);
            let v = num(&d);
            (d, Some((v, v)))
        }
        _ => {
            let (a, b) = (digits(1, top), digits(1, top));
            let r = (num(&a), num(&b));
            (vec![a[0], b'-', b[0]], Some(r))
        }
    };
    let marks = [
        "Reserved",
        "Missing",
        ")",
        "Reserved for local use",
        "Future versions",
        "Missing value",
        "Reserved for other centres",
    ];
    let named = s::choose(2) == 1;
    let shown = if named {
        ["Temperature", "Heat \"flux\", net", "Reserved level"][k % 3].to_owned()
    } else {
        marks[s::choose(if forms < 4 {
            1
        } else if k == 0 {
            7
        } else {
            2
        })]
        .to_owned()
    };
    Row {
        code,
        range,
        shown,
        named,
    }
}

/// The entries in the text of a constant, still quoted.
fn entries<'a>(t: &'a str, name: &str) -> Option<Vec<&'a str>> {
    let at = t.find(&("const ".to_owned() + name + ":"))?;
    let t = t[at..].split_once("= &[")?.1;
    Some(
        t.split_once("];")?
            .0
            .lines()
            .map(|l| l.trim().trim_end_matches(','))
            .filter(|l| !l.is_empty())
            .collect(),
    )
}

/// The text of the constant is right for these rows.
fn judge(out: &str, name: &str, title: &str, rows: &[Row]) {
    let got = match entries(out, name) {
        Some(x) => x,
        None => {
            s::check(false, "a table that was loaded is exported under its name");
            unreachable!()
        }
    };
    s::check(
        out.starts_with("/// ") && out[4..].starts_with(title),
        "the table is documented by its title",
    );
    // contiguous: ranges in order, one after the other, from 0
    let mut next = 0;
    let mut contiguous = true;
    let mut len = 0;
    for r in rows {
        if let Some((a, b)) = r.range {
            if b < a {
                contiguous = false;
                continue;
            }
            contiguous &= a == next;
            next = b + 1;
            if r.named {
                len = b + 1;
            }
        }
    }
    let meaning = |i: usize| -> Vec<&Row> {
        rows.iter()
            .filter(|r| matches!(r.range, Some((a, b)) if a <= i && i <= b))
            .collect()
    };
    if contiguous {
        s::check(
            got.len() == len,
            "a table without gaps has an entry for every code up to the last one with a meaning",
        );
        for (i, g) in got.iter().enumerate() {
            let want = meaning(i)
                .iter()
                .find(|r| r.named)
                .map(|r| r.shown.clone())
                .unwrap_or_default();
            s::check(*g == format!("{:?}", want), "each code has its own meaning");
        }
        s::cover(1);
    } else {
        for (i, g) in got.iter().enumerate() {
            s::check(
                *g == "\"\""
                    || meaning(i)
                        .iter()
                        .any(|r| r.named && *g == format!("{:?}", r.shown)),
                "no code has another one's meaning",
            );
        }
        s::cover(2);
    }
}

const HEAD: &str = "Title_en,SubTitle_en,CodeFlag,Value,MeaningParameterDescription_en,Note_en,UnitComments_en,Status\n";

fn cell(out: &mut Vec<u8>, x: &[u8], end: u8) {
    let quoted = x.iter().any(|c| *c == b',' || *c == b'"');
    if quoted {
        out.push(b'"');
    }
    for c in x {
        if *c == b'"' {
            out.push(b'"');
        }
        out.push(*c);
    }
    if quoted {
        out.push(b'"');
    }
    out.push(end);
}

fn flag_line(out: &mut Vec<u8>, title: &str, sub: &[u8], r: &Row) {
    cell(out, title.as_bytes(), b',');
    cell(out, sub, b',');
    out.extend_from_slice(&r.code);
    out.extend_from_slice(b",7,");
    cell(out, r.shown.as_bytes(), b',');
    out.extend_from_slice(b"note,unit,Operational\n");
}

fn put(name: &str, b: &[u8]) {
    if std::fs::write(name, b).is_err() {
        unreachable!()
    }
}

crate::harnesses! {
    // ranges of codes: any text of `arg` characters
    fn t_range(arg) {
        let b = s::bytes(arg as usize);
        for x in &b {
            s::assume(*x < 0x80);
        }
        let r = text(&b).parse::<CodeRange>();
        let digit = |k: usize| b.get(k).map_or(false, |x| x.is_ascii_digit());
        let mut i = 0;
        while digit(i) {
            i += 1;
        }
        let mut j = i + 1;
        while digit(j) {
            j += 1;
        }
        if i == 0 || i < b.len() && (b[i] != b'-' || j == i + 1) {
            s::check(r.is_err(), "a range is a number or two numbers with a hyphen between");
            s::cover(2);
        } else if i == b.len() {
            s::check(matches!(&r, Ok(r) if r.size() == 1), "a number is a range of one code");
            s::cover(1);
        } else {
            let (x, y) = (num(&b[..i]), num(&b[i + 1..j]));
            if x > y {
                s::check(r.is_err(), "a range does not end before it starts");
            } else if j == b.len() {
                s::check(matches!(&r, Ok(r) if r.size() == y - x + 1), "a range has as many codes as there are numbers in it");
                s::cover(3);
            } else if let Ok(r) = r {
                s::check(r.size() == y - x + 1, "a range has as many codes as there are numbers in it");
            }
        }
    }
    // one table of `arg` rows, codes below 6; from 10 on, of arg - 10 rows, codes below 4, fewer kinds of rows
    fn t_flag(arg) {
        let names = [
            ("GRIB2_CodeFlag_1_3_CodeTable_en.csv", (1, 3), "CODE_TABLE_1_3"),
            ("GRIB2_CodeFlag_255_0_x.csv", (255, 0), "CODE_TABLE_255_0"),
        ];
        let (path, id, name) = names[if arg < 10 { s::choose(2) } else { 0 }];
        let rows: Vec<Row> = (0..arg as usize % 10).map(|k| if arg < 10 { row(k, 6, 4) } else { row(k, 4, 2) }).collect();
        let mut f = HEAD.as_bytes().to_vec();
        for r in &rows {
            flag_line(&mut f, "Any title", b"", r);
        }
        put(path, &f);
        let mut db = flag::CodeDB::new();
        s::check(db.load(path).is_ok(), "a table is loaded");
        let id = (id.0, id.1, OptArg::None);
        judge(&db.export(id), name, "Any title", &rows);
        s::check(db.get(id).is_some() && db.export(id) == db.to_string(), "all tables are written");
        s::check(db.get((id.0, id.1, OptArg::L1(0))).is_none() && db.get((id.1, id.0, OptArg::None)).is_none(), "a table is found by its own numbers only");
    }
    // tables with codes of more digits
    fn t_flag_long(_arg) {
        let range = |a: usize, b: usize| if a == b { a.to_string() } else { format!("{a}-{b}") };
        let row = |a: usize, b: usize, named: bool| Row {
            code: range(a, b).into_bytes(),
            range: Some((a, b)),
            shown: if named { "Temperature" } else { "Reserved" }.to_owned(),
            named,
        };
        let a = [8, 9, 10, 98, 99, 190, 253, 254, 255, 256, 300][s::choose(11)];
        let c = a + 2 + [0, 1, 10, 255, 256, 300][s::choose(6)];
        let rows = vec![
            row(0, 0, true),
            row(1, a, s::choose(2) == 1),
            row(a + 1, a + 1, true),
            row(a + 2, c, s::choose(2) == 1),
            row(c + 1 + s::choose(2), c + 3, s::choose(2) == 1),
        ];
        let mut f = HEAD.as_bytes().to_vec();
        for r in &rows {
            flag_line(&mut f, "Any title", b"", r);
        }
        let path = "GRIB2_CodeFlag_1_3_CodeTable_en.csv";
        put(path, &f);
        let mut db = flag::CodeDB::new();
        s::check(db.load(path).is_ok(), "a table is loaded");
        judge(&db.export((1, 3, OptArg::None)), "CODE_TABLE_1_3", "Any title", &rows);
    }
    // tables by discipline (0) or discipline and category (1)
    fn t_sub(arg) {
        let d = [digits(1 + s::choose(2), 10), [&b"3"[..], b"10"][s::choose(2)].to_vec()];
        let c = if arg == 1 { [digits(1, 10), b"191".to_vec()] } else { [vec![], vec![]] };
        let ids: Vec<OptArg> = (0..2).map(|k| if arg == 1 { OptArg::L2(num(&d[k]) as u8, num(&c[k]) as u8) } else { OptArg::L1(num(&d[k]) as u8) }).collect();
        s::assume(ids[0] != ids[1]);
        let simple = |code: &[u8], r, shown: &str, named| Row { code: code.to_vec(), range: Some(r), shown: shown.to_owned(), named };
        let rows = [
            vec![simple(b"0", (0, 0), "A", true), simple(b"1-2", (1, 2), "Reserved", false), simple(b"3", (3, 3), "B", true)],
            vec![simple(b"0-1", (0, 1), "C", true), simple(b"2-254", (2, 254), "Reserved", false)],
        ];
        let mut f = HEAD.as_bytes().to_vec();
        for k in 0..2 {
            let mut sub = b"Product discipline ".to_vec();
            sub.extend_from_slice(&d[k]);
            sub.extend_from_slice(b" - Some products");
            if arg == 1 {
                sub.extend_from_slice(b", parameter category ");
                sub.extend_from_slice(&c[k]);
                sub.extend_from_slice(b": some");
            }
            for r in &rows[k] {
                flag_line(&mut f, "Title", &sub, r);
            }
        }
        let path = "GRIB2_CodeFlag_4_2_CodeTable_en.csv";
        put(path, &f);
        let mut db = flag::CodeDB::new();
        s::check(db.load(path).is_ok(), "a table is loaded");
        let all = db.to_string();
        for k in 0..2 {
            let id = (4, 2, ids[k]);
            let dn = s::each(num(&d[k]) as u64) as usize;
            let name = match arg {
                1 => format!("CODE_TABLE_4_2_{}_{}", dn, s::each(num(&c[k]) as u64)),
                _ => format!("CODE_TABLE_4_2_{}", dn),
            };
            let one = db.export(id);
            judge(&one, &name, "Title", &rows[k]);
            s::check(all.contains(&one), "all tables are written");
        }
        s::check(all.matches("const ").count() == 2, "each table is written once");
        s::cover(3);
    }
    // subtitles
    fn t_subtitle(arg) {
        let (a, b) = (s::bytes(s::choose(4)), s::bytes(s::choose(4)));
        for x in a.iter().chain(&b) {
            s::assume(*x < 0x80 && *x != b'+' && *x != b' ' && *x != b',' && *x != b':');
        }
        let level = s::choose(2);
        let tail = s::choose(2);
        let mut t = b"Product discipline ".to_vec();
        t.extend_from_slice(&a);
        t.extend_from_slice([&b""[..], b" - Some products"][tail]);
        if level == 1 {
            t.extend_from_slice(b", parameter category ");
            t.extend_from_slice(&b);
            t.extend_from_slice([&b""[..], b": some thing, 5"][tail]);
        }
        let number = |x: &[u8]| -> Option<u8> {
            if x.is_empty() || x.iter().any(|c| !c.is_ascii_digit()) || num(x) > 255 { None } else { Some(num(x) as u8) }
        };
        let got = text(&t).parse::<OptArg>();
        let want = match (number(&a), number(&b)) {
            (Some(d), _) if level == 0 => Some(OptArg::L1(d)),
            (Some(d), Some(c)) => Some(OptArg::L2(d, c)),
            _ => None,
        };
        if want.is_some() { s::cover(1) } else { s::cover(2) }
        s::check(got.ok() == want, "a subtitle names a discipline and a category by numbers from 0 to 255");
    }
    // files that are not tables, and tables that are not there
    fn t_names(arg) {
        let names = ["GRIB2_CodeFlag_1_3.csv", "GRIB2_CodeFlag_256_0_x.csv", "GRIB2_CodeFlag_a_0_x.csv", "GRIB2_Template_1_3_x.csv", "notes.csv"];
        let k = s::choose(6);
        let mut db = flag::CodeDB::new();
        let mut f = HEAD.as_bytes().to_vec();
        let r = Row { code: b"0".to_vec(), range: Some((0, 0)), shown: "A".to_owned(), named: true };
        flag_line(&mut f, "Title", if k == 5 { b"no such subtitle" } else { b"" }, &r);
        let path = if k == 5 { names[0] } else { names[k] };
        put(path, &f);
        let ok = db.load(path).is_ok();
        s::check(ok == (k == 0 || k == 3 || k == 4), "file names and subtitles that cannot be read are errors");
        s::check(db.get((1, 3, OptArg::None)).is_some() == (k == 0), "only files of code tables are loaded");
        if k > 0 {
            s::check(db.to_string().is_empty() && db.export((1, 3, OptArg::None)) == "[]", "nothing is exported that was not loaded");
        }
        s::check(flag::CodeDB::new().load("GRIB2_CodeFlag_1_4_x.csv").is_err(), "a missing file is an error");
        s::cover(1);
    }
    // common code tables C-0 (0, 2) and C-11 (1, 3), of 2 or 3 rows
    fn t_cct(arg) {
        let rows: Vec<Row> = (0..2 + arg as usize / 2).map(|k| row(k, 4, 4)).collect();
        let arg = arg % 2;
        let mut f = if arg == 0 {
            b"GRIB version number,BUFR version number,CREX version number,Effective date,Status\n".to_vec()
        } else {
            b"CREX2,GRIB2_BUFR4,OriginatingGeneratingCentre_en,Status\n".to_vec()
        };
        for r in &rows {
            if arg == 0 {
                f.extend_from_slice(&r.code);
                f.extend_from_slice(b",8,9,");
            } else {
                f.extend_from_slice(b"00008,");
                f.extend_from_slice(&r.code);
                f.push(b',');
            }
            cell(&mut f, r.shown.as_bytes(), b',');
            f.extend_from_slice(b"Operational\n");
        }
        let (path, id, name, title) = [("C00.csv", 0, "COMMON_CODE_TABLE_00", "Common Code Table C-0"), ("C11.csv", 11, "COMMON_CODE_TABLE_11", "Common Code Table C-11")][arg as usize];
        put(path, &f);
        let mut db = cct_csv::CodeDB::new();
        s::check(db.load(path).is_ok(), "a table is loaded");
        judge(&db.export(id), name, title, &rows);
        s::check(db.export(id) == db.to_string() && db.get(11 - id).is_none(), "the file is exported once, as its own table");
    }
}
