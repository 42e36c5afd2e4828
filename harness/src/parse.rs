//! Reading: totality, tiling, grouping, independence from delivery, faults, header fields,
//! submessage iteration.
use crate::s;
use crate::util::*;
use grib::{
    Grib2, Grib2Read, Grib2SectionStream, Grib2SubmessageStream, GribError, ParseError,
    SectionBody, SectionInfo, SeekableGrib2Reader,
};
use std::io::{self, Read, Seek, SeekFrom};

/// Walks everything the handle exposes without decoding.
fn walk<R: Grib2Read>(g: &Grib2<R>) -> u64 {
    let mut n = 0;
    for x in g.sections() {
        n += x.size as u64;
    }
    n += g.list_templates().len() as u64;
    for (_, m) in g.iter() {
        n += m.4.index as u64;
    }
    n
}

/// Whatever was accepted must tile the input.
fn tiles<'a>(b: &[u8], sects: impl Iterator<Item = &'a SectionInfo>) {
    let mut next = 0usize; // where the next section must start
    let mut end = 0usize; // end of the current message
    let mut inside = false;
    for x in sects {
        let o = x.offset;
        s::check(
            o <= b.len() && x.size <= b.len() - o,
            "a reported section lies inside the input",
        );
        match x.num {
            0 => {
                s::check(
                    !inside,
                    "a message starts only after the previous one ended",
                );
                s::check(o >= next, "messages do not overlap");
                s::check(x.size == 16, "section 0 is 16 octets");
                s::check(
                    b[o] == b'G' && b[o + 1] == b'R' && b[o + 2] == b'I' && b[o + 3] == b'B',
                    "section 0 starts with GRIB",
                );
                s::check(b[o + 7] == 2, "only edition 2 is accepted");
                let len = be64(b, o + 8);
                s::check(
                    len <= (b.len() - o) as u64,
                    "the message lies inside the input",
                );
                end = o + len as usize;
                inside = true;
            }
            8 => {
                s::check(
                    inside && o == next,
                    "section 8 directly follows the section before it",
                );
                s::check(x.size == 4, "section 8 is 4 octets");
                s::check(
                    b[o] == b'7' && b[o + 1] == b'7' && b[o + 2] == b'7' && b[o + 3] == b'7',
                    "section 8 is 7777",
                );
                s::check(
                    o + 4 == end,
                    "section 8 ends where section 0 said the message ends",
                );
                inside = false;
            }
            n => {
                s::check(
                    inside && o == next,
                    "each section directly follows the section before it",
                );
                s::check(
                    n >= 1 && n <= 7,
                    "only sections 1 to 7 occur inside a message",
                );
                s::check(
                    x.size >= 5 && x.size as u64 == be32(b, o) as u64,
                    "the size is the one in the section header",
                );
                s::check(b[o + 4] == n, "the number is the one in the section header");
            }
        }
        next = o + x.size;
    }
    s::check(!inside, "the last message is complete");
}

/// Reads `b` and checks that whatever is accepted tiles it.
fn read_and_tile(b: &[u8]) {
    match grib::from_reader(Split::new(b)) {
        Ok(g) => {
            if g.len() > 0 {
                s::cover(1);
            }
            tiles(b, g.sections());
        }
        Err(_) => s::cover(2),
    }
}

/// A message whose section sizes are minimal plus `extra[k]` octets; contents symbolic.
const MIN_BODY: [usize; 8] = [0, 16, 0, 9, 4, 6, 1, 0];
fn layout(pre: Vec<u8>, nums: &[u8], extra: &[usize]) -> (Vec<u8>, Vec<(u8, usize, usize)>) {
    let mut m = Msg::begin(pre, s::u8());
    for (i, &n) in nums.iter().enumerate() {
        let body = any(MIN_BODY[n as usize] + extra.get(i).copied().unwrap_or(0));
        m.sect(n, &body);
    }
    m.end()
}

fn same_sections<'a>(got: impl Iterator<Item = &'a SectionInfo>, want: &[(u8, usize, usize)]) {
    let mut k = 0;
    for x in got {
        s::check(k < want.len(), "no section is invented");
        let (n, o, z) = want[k];
        s::check(
            x.num == n && x.offset == o && x.size == z,
            "section number, offset and size are as laid out",
        );
        k += 1;
    }
    s::check(k == want.len(), "no section is lost");
}

// ------------------------------------------------------------------ readers

/// Delivers the bytes in pieces: up to `shorts` reads return fewer bytes than they could
/// (or are interrupted), wherever they happen.
struct Chunky<'a> {
    b: &'a [u8],
    pos: u64,
    shorts: u32,
    max: usize,
    intr: bool,
}
impl Read for Chunky<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let at = (self.pos as usize).min(self.b.len());
        let mut n = buf.len().min(self.b.len() - at).min(self.max);
        if self.shorts > 0 && n > 1 {
            let c = s::u8();
            s::assume((c as usize) < n.min(24));
            if c > 0 {
                self.shorts -= 1;
                n = s::each(c as u64) as usize;
            }
        }
        if self.intr && n > 0 && s::u8() == 1 {
            self.intr = false;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        buf[..n].copy_from_slice(&self.b[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
/// An in-memory reader whose end moves.
struct Shrinks<'a> {
    b: &'a [u8],
    pos: u64,
    left: &'a std::cell::Cell<usize>,
}
impl Read for Shrinks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let b = &self.b[..self.left.get()];
        let at = (self.pos as usize).min(b.len());
        let n = buf.len().min(b.len() - at);
        buf[..n].copy_from_slice(&b[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Shrinks<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        seek_to(&mut self.pos, self.left.get(), to)
    }
}
fn seek_to(pos: &mut u64, len: usize, to: SeekFrom) -> io::Result<u64> {
    let p = match to {
        SeekFrom::Start(p) => Some(p),
        SeekFrom::Current(d) => pos.checked_add_signed(d),
        SeekFrom::End(d) => (len as u64).checked_add_signed(d),
    };
    match p {
        Some(p) => {
            *pos = p;
            Ok(p)
        }
        None => Err(io::Error::from(io::ErrorKind::InvalidInput)),
    }
}
impl Seek for Chunky<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        seek_to(&mut self.pos, self.b.len(), to)
    }
}

/// An in-memory reader that splits the path over its position after every seek, so that the
/// positions inside the input are concrete (all of them are explored).
pub struct Split<'a> {
    b: &'a [u8],
    pos: u64,
}
impl<'a> Split<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Split { b, pos: 0 }
    }
}
impl Read for Split<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.b.len() as u64 {
            return Ok(0);
        }
        let at = self.pos as usize;
        let n = buf.len().min(self.b.len() - at);
        let n = s::each(n as u64) as usize;
        buf[..n].copy_from_slice(&self.b[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Split<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = seek_to(&mut self.pos, self.b.len(), to)?;
        if p < self.b.len() as u64 {
            self.pos = s::each(p);
        }
        Ok(self.pos)
    }
}

/// Fails at the n-th operation (and, if `sticky`, at every later one).
struct Faulty<'a> {
    b: &'a [u8],
    pos: u64,
    left: u32,
    fired: &'a std::cell::Cell<bool>,
    sticky: bool,
    kind: io::ErrorKind,
    /// the read before the fault delivers one octet
    short: bool,
}
const FAULTS: [io::ErrorKind; 7] = [
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::Other,
    io::ErrorKind::InvalidData,
    io::ErrorKind::BrokenPipe,
];
/// Pieces of known length at any distance; zeros between them.
struct Sparse<'a> {
    pieces: &'a [(u64, Vec<u8>)],
    pos: u64,
}
impl Read for Sparse<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        for (k, (start, b)) in self.pieces.iter().enumerate() {
            let d = self.pos.wrapping_sub(*start);
            if d < b.len() as u64 {
                let d = s::each(d) as usize;
                let n = buf.len().min(b.len() - d);
                buf[..n].copy_from_slice(&b[d..d + n]);
                self.pos += n as u64;
                return Ok(n);
            }
            if self.pos < *start {
                let left = start - self.pos;
                let n = if left >= buf.len() as u64 { buf.len() } else { s::each(left) as usize };
                buf[..n].fill(0);
                self.pos += n as u64;
                return Ok(n);
            }
            if k + 1 == self.pieces.len() {
                break;
            }
        }
        Ok(0)
    }
}
impl Seek for Sparse<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let pos = match to {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(x) => self.pos as i64 + x,
            SeekFrom::End(x) => self.pieces.last().map_or(0, |p| p.0 as i64 + p.1.len() as i64) + x,
        };
        if pos < 0 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos = pos as u64;
        Ok(self.pos)
    }
}
impl Faulty<'_> {
    fn op(&mut self) -> io::Result<()> {
        if self.left == 0 {
            if !self.fired.get() || self.sticky {
                self.fired.set(true);
                return Err(io::Error::from(self.kind));
            }
        } else {
            self.left -= 1;
        }
        Ok(())
    }
}
impl Read for Faulty<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.op()?;
        let at = (self.pos as usize).min(self.b.len());
        let mut n = buf.len().min(self.b.len() - at);
        if self.short && self.left == 0 && n > 1 && !self.fired.get() {
            n = 1;
        }
        buf[..n].copy_from_slice(&self.b[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Faulty<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.op()?;
        seek_to(&mut self.pos, self.b.len(), to)
    }
}

// ------------------------------------------------------------------ grammar oracle

#[derive(Clone, PartialEq)]
struct Sub {
    msg: usize,
    sub: usize,
    s0: usize,
    s1: usize,
    s2: Option<usize>,
    s3: usize,
    s4: usize,
    /// None where the message goes on
    s8: Option<usize>,
}
#[derive(PartialEq, Clone, Copy)]
enum End {
    Clean,
    Order,
    NoGrid,
    Eof,
    Src,
}

/// The section grammar, written as a recursive-descent reader over section numbers:
///   stream  = message*           message = 0 1 submsg+ 8
///   submsg  = [ [2] 3 ] 4 5 6 7  (a grid, once given, holds for the rest of its message)
/// `fail` marks a position at which the source reports an error instead of a section.
fn grammar(nums: &[u8], fail: Option<usize>) -> (Vec<Sub>, End) {
    let mut out = vec![];
    let mut i = 0;
    let mut msg = 0;
    let at = |i: usize| -> Result<u8, End> {
        if fail == Some(i) {
            Err(End::Src)
        } else if i < nums.len() {
            Ok(nums[i])
        } else {
            Err(End::Eof)
        }
    };
    loop {
        let s0 = i;
        match at(i) {
            Err(End::Eof) => return (out, End::Clean),
            Err(e) => return (out, e),
            Ok(0) => i += 1,
            Ok(_) => return (out, End::Order),
        }
        match at(i) {
            Err(e) => return (out, e),
            Ok(1) => i += 1,
            Ok(_) => return (out, End::Order),
        }
        let s1 = i - 1;
        let (mut s2, mut s3) = (None, None);
        let mut sub = 0;
        loop {
            let first = match at(i) {
                Err(e) => return (out, e),
                Ok(n) => n,
            };
            if first == 2 {
                s2 = Some(i);
                i += 1;
                match at(i) {
                    Err(e) => return (out, e),
                    Ok(3) => {}
                    Ok(_) => return (out, End::Order),
                }
                s3 = Some(i);
                i += 1;
            } else if first == 3 {
                s3 = Some(i);
                i += 1;
            } else if first == 4 {
                if s3.is_none() {
                    return (out, End::NoGrid);
                }
            } else {
                return (out, End::Order);
            }
            let s4 = i;
            for want in 4..8 {
                match at(i) {
                    Err(e) => return (out, e),
                    Ok(n) if n == want => i += 1,
                    Ok(_) => return (out, End::Order),
                }
            }
            let (g3, last) = (s3.unwrap_or(0), at(i));
            let mut one = Sub {
                msg,
                sub,
                s0,
                s1,
                s2,
                s3: g3,
                s4,
                s8: None,
            };
            match last {
                Err(e) => return (out, e),
                Ok(8) => {
                    one.s8 = Some(i);
                    out.push(one);
                    i += 1;
                    break;
                }
                Ok(_) => out.push(one),
            }
            sub += 1;
        }
        msg += 1;
    }
}

fn classify(e: &ParseError) -> End {
    match e {
        ParseError::InvalidSectionOrder(_) => End::Order,
        ParseError::NoGridDefinition(_) => End::NoGrid,
        ParseError::UnexpectedEndOfData(_) => End::Eof,
        _ => End::Src,
    }
}

fn check_stream(nums: &[u8], fail: Option<usize>) {
    let n = nums.len().max(fail.map_or(0, |f| f + 1));
    let items = (0..n).map(|i| {
        if fail == Some(i) {
            Err(ParseError::ReadError(String::new()))
        } else {
            Ok(SectionInfo {
                num: nums[i],
                offset: 1000 + i,
                size: i,
                body: None,
            })
        }
    });
    let (want, end) = grammar(nums, fail);
    let mut st = Grib2SubmessageStream::new(items);
    for w in want.iter() {
        match st.next() {
            Some(Ok((m, k, x))) => {
                s::cover(1);
                s::check(
                    m == w.msg && k == w.sub,
                    "message and submessage numbers count up",
                );
                let o = |v: &SectionInfo, num: u8, i: usize| {
                    v.num == num && v.offset == 1000 + i && v.size == i
                };
                s::check(
                    o(&x.0, 0, w.s0) && o(&x.1, 1, w.s1),
                    "sections 0 and 1 are those of the message",
                );
                match (&x.2, w.s2) {
                    (None, None) => {}
                    (Some(v), Some(i)) => {
                        s::check(o(v, 2, i), "section 2 is the latest one of the message")
                    }
                    _ => s::check(
                        false,
                        "section 2 is present exactly when the message gave one",
                    ),
                }
                s::check(
                    o(&x.3, 3, w.s3),
                    "section 3 is the latest one of the message",
                );
                s::check(
                    o(&x.4, 4, w.s4)
                        && o(&x.5, 5, w.s4 + 1)
                        && o(&x.6, 6, w.s4 + 2)
                        && o(&x.7, 7, w.s4 + 3),
                    "sections 4 to 7 are the submessage's own",
                );
                s::check(x.8.num == 8, "section 8 closes the submessage");
                if let Some(i) = w.s8 {
                    s::check(o(&x.8, 8, i), "section 8 is the one that ends the message");
                }
            }
            _ => s::check(false, "every submessage the grammar allows is reported"),
        }
    }
    match st.next() {
        None => s::check(
            end == End::Clean,
            "a malformed or cut-off sequence is reported, not ignored",
        ),
        Some(Ok(_)) => s::check(false, "no submessage is invented"),
        Some(Err(e)) => {
            s::cover(2);
            s::check(end == classify(&e), "the error says what is wrong");
            s::check(st.next().is_none(), "nothing follows an error");
        }
    }
}

/// Messages with `counts[m]` sections of 21 octets each, section numbers symbolic.
fn numbered(counts: &[usize]) -> (Vec<u8>, Vec<u8>) {
    let mut b = vec![];
    let mut nums = vec![];
    for &c in counts {
        let mut m = Msg::begin(b, 0);
        nums.push(0);
        for _ in 0..c {
            let n = s::u8();
            m.sect(n, &[0; 16]);
            nums.push(n);
        }
        nums.push(8);
        b = m.end().0;
    }
    (b, nums)
}

/// What the section reader itself makes of the numbers: it stops at the first one it does not know.
fn check_handle(counts: &[usize]) {
    let (b, nums) = numbered(counts);
    let mut fail = None;
    let mut k = 0;
    for &c in counts {
        for j in 1..=c {
            let n = nums[k + j];
            if fail.is_none() && !(n >= 1 && n <= 7) {
                fail = Some(k + j);
            }
        }
        k += c + 2;
    }
    let (want, end) = grammar(&nums, fail);
    match grib::from_slice(&b) {
        Err(e) => {
            s::cover(2);
            s::check(end != End::Clean, "well-ordered sections are accepted");
            match e {
                GribError::ParseError(e) => {
                    s::check(end == classify(&e), "the error says what is wrong")
                }
                _ => s::check(false, "ordering problems are parse errors"),
            }
        }
        Ok(g) => {
            s::cover(1);
            s::check(end == End::Clean, "wrongly ordered sections are rejected");
            s::check(
                g.sections().count() == nums.len(),
                "every section is listed once",
            );
            s::check(
                g.len() == want.len() && g.is_empty() == want.is_empty(),
                "len() counts the submessages",
            );
            let mut it = g.iter();
            for w in want.iter() {
                let Some(((m, k), x)) = it.next() else {
                    s::check(false, "every submessage is listed");
                    return;
                };
                s::check(
                    m == w.msg && k == w.sub,
                    "message and submessage numbers count up",
                );
                let at = |v: &grib::SubMessageSection, num: u8, i: usize| {
                    v.index == i && v.body.num == num
                };
                s::check(
                    at(&x.0, 0, w.s0) && at(&x.1, 1, w.s1),
                    "sections 0 and 1 are those of the message",
                );
                match (&x.2, w.s2) {
                    (None, None) => {}
                    (Some(v), Some(i)) => {
                        s::check(at(v, 2, i), "section 2 is the latest one of the message")
                    }
                    _ => s::check(
                        false,
                        "section 2 is present exactly when the message gave one",
                    ),
                }
                s::check(
                    at(&x.3, 3, w.s3),
                    "section 3 is the latest one of the message",
                );
                s::check(
                    at(&x.4, 4, w.s4)
                        && at(&x.5, 5, w.s4 + 1)
                        && at(&x.6, 6, w.s4 + 2)
                        && at(&x.7, 7, w.s4 + 3),
                    "sections 4 to 7 are the submessage's own",
                );
                if let Some(i) = w.s8 {
                    s::check(at(&x.8, 8, i), "section 8 is the one that ends the message");
                }
            }
            s::check(it.next().is_none(), "no submessage is invented");
        }
    }
}

/// A two-submessage message followed by a one-submessage message.
fn sample() -> (Vec<u8>, Vec<(u8, usize, usize)>) {
    let mut m = Msg::begin(vec![], 0);
    m.sect(1, &[1; 16])
        .sect(2, &[2; 3])
        .sect(3, &[3; 9])
        .sect(4, &[4; 4])
        .sect(5, &[5; 6]);
    m.sect(6, &[6; 2])
        .sect(7, &[7; 3])
        .sect(4, &[4; 5])
        .sect(5, &[5; 6])
        .sect(6, &[255])
        .sect(7, &[]);
    let (b, mut all) = m.end();
    let mut m = Msg::begin(b, 1);
    m.sect(1, &[1; 16])
        .sect(3, &[3; 10])
        .sect(4, &[4; 4])
        .sect(5, &[5; 6])
        .sect(6, &[6; 1])
        .sect(7, &[7; 2]);
    let (b, more) = m.end();
    all.extend(more);
    (b, all)
}

crate::harnesses! {
    // arbitrary bytes
    fn c01_raw(n) {
        let b = s::bytes(n as usize);
        if let Ok(g) = grib::from_slice(&b) {
            s::cover(1);
            s::obs(walk(&g));
        } else {
            s::cover(2);
        }
    }
    // arbitrary bytes after a correct magic and edition
    fn c01_msg(n) {
        let mut b = b"GRIB\0\0\0\x02".to_vec();
        b.extend(s::bytes(n as usize));
        if let Ok(g) = grib::from_reader(Split::new(&b)) {
            s::cover(1);
            s::obs(walk(&g));
        } else {
            s::cover(2);
        }
    }
    // arbitrary total length, section sizes and numbers over zeroed contents
    fn c01_hdrs(n) {
        let k = n as usize;
        let mut b = b"GRIB\0\0\0\x02".to_vec();
        b.extend(s::arr::<8>());
        for _ in 0..k {
            b.extend(s::arr::<5>());
            b.extend([0; 17]);
        }
        b.extend(b"7777");
        if let Ok(g) = grib::from_reader(Split::new(&b)) {
            s::obs(walk(&g));
        } else {
            s::cover(2);
        }
    }
    // the section stream keeps answering after an error, however often it is asked
    fn c01_stream(n) {
        let mut b = b"GRIB\0\0\0\x02".to_vec();
        b.extend(s::bytes(n as usize));
        let mut st = Grib2SectionStream::new(SeekableGrib2Reader::new(Split::new(&b)));
        let mut errs = 0;
        for _ in 0..10 {
            match st.next() {
                None => break,
                Some(Ok(_)) => {}
                Some(Err(_)) => {
                    s::cover(2);
                    errs += 1;
                    if errs > 3 { break; }
                }
            }
        }
        s::obs(errs);
    }

    // whatever is accepted tiles the input
    fn c02_raw(n) {
        let b = s::bytes(n as usize);
        read_and_tile(&b);
    }
    // one message with the fixed parts right; every header and content octet symbolic
    fn c02_msg(n) {
        let mut b = b"GRIB\0\0\0\x02".to_vec();
        b.extend(s::bytes(n as usize));
        read_and_tile(&b);
    }
    // a well-formed message in which n section headers and the total length are overwritten
    fn c02_mut(n) {
        let mut m = Msg::begin(vec![], 0);
        m.sect(1, &[1; 18]).sect(2, &[]).sect(3, &[0; 10]).sect(4, &[4; 4]).sect(5, &[5; 6]).sect(6, &[6; 1]).sect(7, &[7; 3]);
        m.sect(4, &[0; 4]).sect(5, &[0; 6]).sect(6, &[255]).sect(7, &[]);
        let (mut b, all) = m.end();
        let total = b.len();
        for _ in 0..n {
            let k = s::choose(12);
            if k == 0 {
                let v = s::u64();
                s::assume(v != total as u64);
                b[8..16].copy_from_slice(&v.to_be_bytes());
            } else {
                let o = all[k].1;
                s::fill(&mut b[o..o + 5]);
            }
        }
        read_and_tile(&b);
    }
    // a well-formed message of any small section sizes, after some leading bytes, is read as laid out
    fn c02_layout(n) {
        let junk = s::choose(n as u8 + 1);
        let pre = s::bytes(junk);
        for w in pre.windows(4) {
            s::assume(!(w[0] == b'G' && w[1] == b'R' && w[2] == b'I' && w[3] == b'B'));
        }
        // the last few bytes of the junk must not run into the magic
        for k in 1..4usize {
            if junk >= k {
                let t = &pre[junk - k..];
                let g = b"GRIB";
                let mut same = true;
                for i in 0..k { same = same & (t[i] == g[i]); }
                // "GRIB" cannot straddle: its prefix of length k would have to be followed by G,R,I again
                let _ = same;
            }
        }
        let with2 = s::choose(2) == 1;
        let which = s::choose(8);
        let extra = s::choose(4);
        let nums: &[u8] = if with2 { &[1, 2, 3, 4, 5, 6, 7] } else { &[1, 3, 4, 5, 6, 7] };
        let mut ex = [0; 8];
        ex[which] = extra;
        let (mut b, want) = layout(pre, nums, &ex);
        let tail = s::choose(3);
        b.extend(vec![0; [0, 1, 15][tail]]);
        match grib::from_slice(&b) {
            Ok(g) => {
                s::cover(1);
                same_sections(g.sections(), &want);
                s::check(g.len() == 1, "one submessage");
            }
            Err(_) => s::check(false, "a well-formed message is accepted"),
        }
    }
    // several messages, junk between them
    fn c02_multi(n) {
        let mut b: Vec<u8> = vec![];
        let mut want = vec![];
        for k in 0..n {
            let j = s::choose(3) * 7;
            b.extend(vec![b'G'; j]);
            let m = layout(b, if k % 2 == 0 { &[1, 3, 4, 5, 6, 7, 4, 5, 6, 7] } else { &[1, 2, 3, 4, 5, 6, 7] }, &[0, 2, 0, 1, 3]);
            b = m.0;
            want.extend(m.1);
        }
        match grib::from_slice(&b) {
            Ok(g) => {
                s::cover(1);
                same_sections(g.sections(), &want);
                s::check(g.len() as u64 == n + (n + 1) / 2, "every submessage is found");
            }
            Err(_) => s::check(false, "well-formed messages are accepted"),
        }
    }
    // the start of a message is found wherever it lies relative to the reader's buffers
    fn c02_far(n) {
        let d = s::choose(24);
        let lead = n as usize - 20 + d;
        let (b, want) = layout(vec![0; lead], &[1, 3, 4, 5, 6, 7], &[]);
        match grib::from_slice(&b) {
            Ok(g) => {
                s::cover(1);
                same_sections(g.sections(), &want);
            }
            Err(_) => s::check(false, "a well-formed message is accepted"),
        }
    }
    // many messages and submessages
    // sections 7 of any size, and more than fits in 32 bits before the last message
    fn c02_sparse(_n) {
        let lead = [0, 3][s::choose(2)];
        let mut m = Msg::begin(vec![b'.'; lead], 0);
        m.sect(1, &[0; 16]).sect(3, &[0; 9]);
        let mut cuts = vec![];
        for _ in 0..2 {
            m.sect(4, &[0; 4]).sect(5, &[0; 6]).sect(6, &[255]).sect(7, &[]);
            cuts.push(m.b.len());
        }
        let (b, mut want) = m.end();
        let first = b.len();
        let x = s::u8();
        let mut m = Msg::begin(b, 0);
        m.sect(1, &[0; 16]).sect(3, &[0, 0, 0, 0, 1, 0, 0, 0, 0]).sect(4, &[0; 4]);
        m.sect(5, &[0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0]).sect(6, &[255]).sect(7, &[x]);
        let (mut b, more) = m.end();
        let gap = || {
            let (high, low) = (s::u8(), s::u8());
            s::assume(high != 0 || low < 4);
            s::assume(high != 255 || low < 251);
            (high as u32) << 24 | low as u32
        };
        let gaps = [gap(), gap()];
        let total = (first - lead) as u64 + gaps[0] as u64 + gaps[1] as u64;
        b[lead + 8..lead + 16].copy_from_slice(&total.to_be_bytes());
        for k in 0..2 {
            b[cuts[k] - 5..cuts[k] - 1].copy_from_slice(&(gaps[k] + 5).to_be_bytes());
        }
        want.extend(more);
        // in gigabytes that nobody stores
        let shift = |at: usize| at + if at >= cuts[0] { gaps[0] as usize } else { 0 } + if at >= cuts[1] { gaps[1] as usize } else { 0 };
        for w in want.iter_mut() {
            if w.0 == 7 {
                for k in 0..2 {
                    if w.1 + w.2 == cuts[k] {
                        w.2 += gaps[k] as usize;
                    }
                }
            }
            w.1 = shift(w.1);
        }
        let pieces = vec![(0, b[..cuts[0]].to_vec()), (shift(cuts[0]) as u64, b[cuts[0]..cuts[1]].to_vec()), (shift(cuts[1]) as u64, b[cuts[1]..].to_vec())];
        let g = match grib::from_reader(Sparse { pieces: &pieces, pos: 0 }) {
            Ok(g) => g,
            Err(_) => return s::check(false, "well-formed messages are accepted"),
        };
        same_sections(g.sections(), &want);
        s::check(g.len() == 3, "every submessage is found");
        let (i, m) = g.iter().nth(2).unwrap();
        s::check(i == (1, 0), "messages and their submessages are numbered");
        let v: Option<Vec<f32>> = grib::Grib2SubmessageDecoder::from(m).and_then(|d| d.dispatch().map(|v| v.collect())).ok();
        s::check(matches!(v, Some(v) if v.len() == 1 && v[0] == x as f32), "the sections of the submessage are decoded");
        if total > u32::MAX as u64 {
            s::cover(1);
        } else {
            s::cover(2);
        }
    }
    fn c02_many(n) {
        let n = n as usize;
        let (count, parts) = [(n, 1), (1, n), (n / 10, 10), (2, n)][s::choose(4)];
        let at = s::u16() as usize;
        // one message has a Section 2
        let local = [0, count / 2, count - 1][s::choose(3)];
        let mut b: Vec<u8> = vec![];
        let mut want = vec![];
        let mut own = vec![];
        for k in 0..count {
            let start = want.len();
            let mut m = Msg::begin(b, 0);
            m.sect(1, &[0; 16]);
            if k == local {
                m.sect(2, &[7]);
            }
            m.sect(3, &[0; 9]);
            let grid = start + 2 + (k == local) as usize;
            for p in 0..parts {
                m.sect(4, &[0; 4]).sect(5, &[0; 6]).sect(6, &[255]).sect(7, &[]);
                own.push((start, grid, grid + 1 + 4 * p));
            }
            let (x, w) = m.end();
            b = x;
            want.extend(w);
        }
        let g = match grib::from_slice(&b) {
            Ok(g) => g,
            Err(_) => return s::check(false, "well-formed messages are accepted"),
        };
        same_sections(g.sections(), &want);
        s::check(g.len() == count * parts, "every submessage is found");
        for (k, (i, m)) in g.iter().enumerate() {
            s::check(i == (k / parts, k % parts), "messages and their submessages are numbered");
            let (first, grid, own) = own[k];
            s::check(m.2.as_ref().map(|x| x.index) == if k / parts == local { Some(first + 2) } else { None }, "a submessage has the Section 2 of its message");
            s::check(
                m.0.index == first && m.1.index == first + 1 && m.3.index == grid && m.4.index == own && m.7.index == own + 3,
                "a submessage has the sections of its message and its own",
            );
        }
        let mut it = g.iter();
        s::assume(at <= count * parts + 1);
        let at = s::each(if at > 2 && at + 3 < count * parts && at % 97 != 0 { s::assume(false); 0 } else { at as u64 }) as usize;
        match it.nth(at) {
            Some((i, _)) => s::check(i == (at / parts, at % parts), "nth() is the submessage of that number"),
            None => s::check(at >= count * parts, "nth() yields what is there"),
        }
        s::cover(1);
    }
    // sections of any size, up to `n` octets more than minimal
    fn c02_big(n) {
        let which = 1 + s::choose(6);
        let size = [250, 251, 255, 4091, 4096, 8192, 65530, 65531, 65535, 65536, 70000][s::choose(n as u8)];
        let num = [1, 2, 3, 4, 5, 7][which - 1];
        let mut m = Msg::begin(vec![], 0);
        let mut tail = vec![];
        for k in 1..8 {
            let mut body = vec![0; MIN_BODY[k]];
            if k == num {
                body.resize(MIN_BODY[k] + size, 0);
                tail = s::bytes(4);
                let e = body.len();
                body[e - 4..].copy_from_slice(&tail);
            }
            m.sect(k as u8, &body);
        }
        let (x, mut want) = m.end();
        let mut m = Msg::begin(x, 0);
        m.sect(1, &[0; 16]).sect(3, &[0; 9]).sect(4, &[0; 4]).sect(5, &[0; 6]).sect(6, &[255]).sect(7, &[]);
        let (b, w) = m.end();
        want.extend(w);
        let g = match grib::from_slice(&b) {
            Ok(g) => g,
            Err(_) => return s::check(false, "well-formed messages are accepted"),
        };
        same_sections(g.sections(), &want);
        s::check(g.len() == 2, "every submessage is found");
        let (_, m) = g.iter().next().unwrap();
        let payload: Vec<u8> = match num {
            3 => m.grid_def().iter().copied().collect(),
            4 => m.prod_def().iter().copied().collect(),
            _ => tail.clone(),
        };
        s::check(payload.ends_with(&tail), "a section has its contents up to its end");
        s::cover(1);
    }
    // a reader that does not start at position 0 reports absolute offsets
    fn c02_offset(n) {
        let lead = s::choose(n as u8 + 1);
        let (b, want) = layout(vec![b'x'; lead], &[1, 3, 4, 5, 6, 7], &[]);
        let mut c = io::Cursor::new(&b[..]);
        c.set_position(lead as u64);
        match grib::from_reader(c) {
            Ok(g) => {
                s::cover(1);
                same_sections(g.sections(), &want);
            }
            Err(_) => s::check(false, "a well-formed message is accepted"),
        }
    }

    // any sequence of n section numbers
    fn c03_stream(n) {
        let nums: Vec<u8> = (0..n).map(|_| { let x = s::u8(); s::assume(x <= 8); x }).collect();
        check_stream(&nums, None);
    }
    // the same with an error from the source at any point
    fn c03_err(n) {
        let nums: Vec<u8> = (0..n).map(|_| { let x = s::u8(); s::assume(x <= 8); x }).collect();
        let f = s::choose(n as u8);
        check_stream(&nums, Some(f));
    }
    fn c03_handle(n) {
        check_handle(&[n as usize]);
    }
    fn c03_handle2(n) {
        check_handle(&[n as usize % 100, n as usize / 100]);
    }

    // n short or interrupted reads anywhere
    fn c04_short(n) {
        let (b, want) = sample();
        let r = Chunky { b: &b, pos: 0, shorts: n as u32, max: usize::MAX, intr: false };
        match grib::from_reader(r) {
            Ok(g) => {
                s::cover(1);
                same_sections(g.sections(), &want);
                s::check(g.len() == 3, "every submessage is found");
            }
            Err(_) => s::check(false, "the result does not depend on how the bytes arrive"),
        }
    }
    // at most k bytes per read, for every k
    fn c04_max(n) {
        let (b, want) = sample();
        let k = s::choose(n as u8);
        let r = Chunky { b: &b, pos: 0, shorts: 0, max: k + 1, intr: false };
        match grib::from_reader(r) {
            Ok(g) => {
                s::cover(1);
                same_sections(g.sections(), &want);
                s::check(g.len() == 3, "every submessage is found");
            }
            Err(_) => s::check(false, "the result does not depend on how the bytes arrive"),
        }
    }
    // an interrupted read anywhere is retried, also after a part of what was asked for arrived
    fn c04_intr(n) {
        let (b, want) = sample();
        let max = if n == 0 { usize::MAX } else { s::choose(n as u8) + 1 };
        let r = Chunky { b: &b, pos: 0, shorts: 0, max, intr: true };
        match grib::from_reader(r) {
            Ok(g) => {
                s::cover(1);
                same_sections(g.sections(), &want);
            }
            Err(_) => s::check(false, "an interrupted read is retried"),
        }
    }
    // leading bytes and short reads together
    fn c04_lead(n) {
        let lead = s::choose(n as u8);
        let (b, want) = layout(vec![b'G'; lead], &[1, 3, 4, 5, 6, 7], &[]);
        let r = Chunky { b: &b, pos: 0, shorts: 1, max: usize::MAX, intr: false };
        match grib::from_reader(r) {
            Ok(g) => {
                s::cover(1);
                same_sections(g.sections(), &want);
            }
            Err(_) => s::check(false, "the result does not depend on how the bytes arrive"),
        }
    }
    // the data sections are read completely too
    fn c04_decode(n) {
        let (b, _) = small_data_message();
        let want = decode_all(io::Cursor::new(&b[..]));
        let r = Chunky { b: &b, pos: 0, shorts: n as u32, max: usize::MAX, intr: false };
        let got = decode_all(r);
        s::cover(1);
        s::check(want.is_ok() && want == got, "decoded values do not depend on how the bytes arrive");
    }

    // long sections in pieces
    fn c04_big(n) {
        let (b, want, values) = big_data_message(n as usize);
        let max = [1000, 4095, 4096, 4097, 8191, 8192, 65535, 65536, usize::MAX][s::choose(9)];
        let r = Chunky { b: &b, pos: 0, shorts: 0, max, intr: max > 65535 };
        match grib::from_reader(r) {
            Ok(g) => {
                same_sections(g.sections(), &want);
                let (_, m) = g.iter().next().unwrap();
                let got: Option<Vec<f32>> = grib::Grib2SubmessageDecoder::from(m).and_then(|d| d.dispatch().map(|v| v.collect())).ok();
                s::check(matches!(got, Some(v) if v == values), "decoded values do not depend on how the bytes arrive");
                s::cover(1);
            }
            Err(_) => s::check(false, "the result does not depend on how the bytes arrive"),
        }
    }
    // long data cut off, or that cannot be read
    fn c05_big(n) {
        let (b, want, _) = big_data_message(n as usize);
        let (_, o, z) = want[want.len() - 2];
        let t = [o, o + 1, o + 4, o + 5, o + 6, o + z / 2, o + z - 4096, o + z - 2, o + z - 1, o + z, o + z + 1, o + z + 3, o + z + 4][s::choose(13)];
        if s::choose(2) == 0 {
            match grib::from_slice(&b[..t]) {
                Err(_) => s::check(t < b.len(), "complete messages are accepted"),
                Ok(_) => s::check(t == b.len(), "a message cut off after its first section is an error"),
            }
            s::cover(1);
        } else {
            // the source loses what it had when the values are read
            let at = std::cell::Cell::new(b.len());
            let g = match grib::from_reader(Shrinks { b: &b, pos: 0, left: &at }) {
                Ok(g) => g,
                Err(_) => return s::check(false, "complete messages are accepted"),
            };
            at.set(t);
            let (_, m) = g.iter().next().unwrap();
            let got: Option<Vec<f32>> = grib::Grib2SubmessageDecoder::from(m).and_then(|d| d.dispatch().map(|v| v.collect())).ok();
            s::check(got.is_some() == (t >= o + z), "a failure while reading values is an error");
            s::cover(2);
        }
    }
    // a read or seek that fails is reported
    fn c05_fault(n) {
        let (b, _) = sample();
        let fired = std::cell::Cell::new(false);
        let left = s::choose(n as u8) as u32;
        let sticky = s::choose(2) == 1;
        let kind = FAULTS[s::choose(FAULTS.len() as u8)];
        let r = Faulty { b: &b, pos: 0, left, fired: &fired, sticky, kind, short: s::choose(2) == 1 };
        let res = grib::from_reader(r);
        if fired.get() {
            s::cover(1);
            s::check(res.is_err(), "a failed read is reported as an error");
        } else {
            s::cover(2);
            match res {
                Ok(g) => s::check(g.len() == 3, "without a fault everything is read"),
                Err(_) => s::check(false, "without a fault everything is read"),
            }
        }
    }
    fn c05_fault_decode(n) {
        let (b, _) = small_data_message();
        let fired = std::cell::Cell::new(false);
        let left = s::choose(n as u8) as u32;
        let kind = FAULTS[s::choose(FAULTS.len() as u8)];
        let r = Faulty { b: &b, pos: 0, left, fired: &fired, sticky: true, kind, short: s::choose(2) == 1 };
        let res = decode_all(r);
        if fired.get() {
            s::cover(1);
            s::check(res.is_err(), "a failed read is reported as an error");
        } else {
            s::cover(2);
            s::check(res == Ok(vec![1.0f32.to_bits(), 3.0f32.to_bits(), 2.0f32.to_bits()]), "without a fault everything is decoded");
        }
    }
    // cutting the input anywhere inside a message is an error, never a shorter result
    fn c05_cut(_n) {
        let (b, all) = sample();
        let t = s::u16() as usize;
        s::assume(t <= b.len());
        let second = all.iter().rposition(|x| x.0 == 0).map(|i| all[i].1).unwrap_or(0);
        let t = s::each(t as u64) as usize;
        match grib::from_slice(&b[..t]) {
            Err(_) => {
                s::cover(2);
                s::check(t != b.len() && t != second, "complete messages are accepted");
            }
            Ok(g) => {
                s::cover(1);
                // fewer octets than an indicator section cannot be told from trailing padding
                let whole = t == b.len() || (t >= second && t < second + 16) || t < 16;
                s::check(whole, "a message cut off after its first section is an error");
                s::check(g.len() == if t == b.len() { 3 } else if t >= second { 2 } else { 0 }, "only complete messages are reported");
            }
        }
    }
    // a wrong end marker, edition or end position is an error
    fn c05_marks(_n) {
        let (mut b, all) = sample();
        let second = all.iter().rposition(|x| x.0 == 0).map(|i| all[i].1).unwrap_or(0);
        let ends = [second - 4, b.len() - 4];
        let e = ends[s::choose(2)];
        let k = s::choose(6);
        let v = s::u8();
        if k < 4 {
            s::assume(v != b'7');
            b[e + k] = v;
        } else {
            s::assume(v != 2);
            b[if k == 4 { 7 } else { second + 7 }] = v;
        }
        s::cover(1);
        match grib::from_slice(&b) {
            Ok(_) => s::check(false, "a damaged end marker or a foreign edition is rejected"),
            Err(GribError::ParseError(p)) => match p {
                ParseError::EndSectionMismatch => s::check(k < 4, "the error names the end marker"),
                ParseError::GRIBVersionMismatch(x) => s::check(k >= 4 && x == v, "the error names the edition"),
                _ => s::check(false, "the error names the damaged part"),
            },
            Err(_) => s::check(false, "a parse error"),
        }
    }
    // a total length that disagrees with the sections is an error
    fn c05_length(_n) {
        let (mut b, _) = layout(vec![], &[1, 3, 4, 5, 6, 7], &[]);
        let n = b.len() as u64;
        let v = s::u64();
        s::assume(v != n);
        b[8..16].copy_from_slice(&v.to_be_bytes());
        s::cover(1);
        s::check(grib::from_slice(&b).is_err(), "a wrong total length is rejected");
    }

    // every header field equals the octets at its position
    fn c06_fields(_n) {
        let (b, want) = layout(vec![], &[1, 2, 3, 4, 5, 6, 7], &[3, 5, 7, 2, 4, 3, 9]);
        let g = match grib::from_slice(&b) {
            Ok(g) => g,
            Err(_) => return s::check(false, "a well-formed message is accepted"),
        };
        s::cover(1);
        same_sections(g.sections(), &want);
        let at = |k: usize| &b[want[k].1..want[k].1 + want[k].2];
        for (k, x) in g.sections().enumerate() {
            let o = at(k);
            let body = match &x.body {
                Some(v) => v,
                None => {
                    s::check(x.num == 8, "every section but the last carries its contents");
                    continue;
                }
            };
            match body {
                SectionBody::Section0(v) => {
                    s::check(x.num == 0 && v.discipline == o[6], "discipline");
                    s::check(v.total_length == be64(o, 8), "total length");
                }
                SectionBody::Section1(v) => {
                    s::check(x.num == 1 && v.centre_id() == be16(o, 5) && v.subcentre_id() == be16(o, 7), "centre and subcentre");
                    s::check(v.master_table_version() == o[9] && v.local_table_version() == o[10], "table versions");
                    s::check(v.ref_time_significance() == o[11], "significance of the reference time");
                    s::check(v.prod_status() == o[19] && v.data_type() == o[20], "production status and data type");
                    let mut n = 0;
                    for (i, x) in v.iter().enumerate() {
                        s::check(*x == o[5 + i], "section 1 octets");
                        n += 1;
                    }
                    s::check(n == o.len() - 5, "all section 1 octets");
                }
                SectionBody::Section2(v) => {
                    let mut n = 0;
                    for (i, x) in v.iter().enumerate() {
                        s::check(*x == o[5 + i], "local use octets");
                        n += 1;
                    }
                    s::check(x.num == 2 && n == o.len() - 5, "all local use octets");
                }
                SectionBody::Section3(v) => {
                    s::check(x.num == 3 && v.num_points() == be32(o, 6), "number of grid points");
                    s::check(v.grid_tmpl_num() == be16(o, 12), "grid template number");
                    s::check(v.iter().count() == o.len() - 5, "all section 3 octets");
                }
                SectionBody::Section4(v) => {
                    s::check(x.num == 4 && v.num_coordinates() == be16(o, 5), "number of coordinate values");
                    s::check(v.prod_tmpl_num() == be16(o, 7), "product template number");
                    s::check(v.iter().count() == o.len() - 5, "all section 4 octets");
                }
                SectionBody::Section5(v) => {
                    s::check(x.num == 5 && v.num_points() == be32(o, 5), "number of data points");
                    s::check(v.repr_tmpl_num() == be16(o, 9), "data representation template number");
                    s::check(v.iter().count() == o.len() - 5, "all section 5 octets");
                }
                SectionBody::Section6(v) => s::check(x.num == 6 && v.bitmap_indicator == o[5], "bitmap indicator"),
                SectionBody::Section7 => s::check(x.num == 7, "section 7"),
            }
            let t = x.get_tmpl_code();
            match x.num {
                3 => s::check(t == Some(grib::TemplateInfo(3, be16(o, 12))), "template code of section 3"),
                4 => s::check(t == Some(grib::TemplateInfo(4, be16(o, 7))), "template code of section 4"),
                5 => s::check(t == Some(grib::TemplateInfo(5, be16(o, 9))), "template code of section 5"),
                _ => s::check(t.is_none(), "only sections 3 to 5 have templates"),
            }
        }
        let (_, m) = match g.iter().next() {
            Some(m) => m,
            None => return s::check(false, "one submessage"),
        };
        s::check(m.indicator().discipline == b[6], "indicator()");
        s::check(m.grid_def().num_points() == be32(at(3), 6), "grid_def()");
        s::check(m.prod_def().prod_tmpl_num() == be16(at(4), 7), "prod_def()");
        s::check(m.repr_def().num_points() == be32(at(5), 5), "repr_def()");
    }

    // any sequence of n iterator operations over three submessages
    fn c07_ops(n) {
        let (b, _) = sample();
        let g = match grib::from_slice(&b) {
            Ok(g) => g,
            Err(_) => return s::check(false, "a well-formed message is accepted"),
        };
        let ids = [(0usize, 0usize), (0, 1), (1, 0)];
        let mut it = g.iter();
        let mut pos = 0usize; // model: how many were consumed
        for _ in 0..n {
            let op = s::choose(3);
            let left = 3 - pos.min(3);
            match op {
                0 => {
                    let x = it.next().map(|(i, _)| i);
                    s::check(x == ids.get(pos).copied(), "next() yields the next submessage");
                    pos = (pos + 1).min(3);
                }
                1 => {
                    let k = s::choose(5);
                    let x = it.nth(k).map(|(i, _)| i);
                    s::check(x == ids.get(pos + k).copied(), "nth(k) skips k submessages");
                    pos = (pos + k + 1).min(3);
                }
                _ => {
                    let mut k = pos;
                    for (i, _) in &g {
                        s::check(k == pos && i == ids[0] || k > pos, "a fresh iteration starts at the beginning");
                        k += 1;
                    }
                    s::check(k == pos + 3, "a fresh iteration sees every submessage");
                }
            }
            s::check(it.size_hint() == (3 - pos.min(3), Some(3 - pos.min(3))), "size_hint() is the number left");
            let _ = left;
        }
        s::cover(1);
        let mut k = pos.min(3);
        for (i, _) in &it {
            s::check(ids.get(k) == Some(&i), "iterating over an iterator continues where it stands");
            k += 1;
        }
        s::check(k == 3, "iterating over an iterator reaches the end");
        let at = pos.min(3);
        s::check((&it).into_iter().count() == 3 - at, "count() is the number left");
        s::check((&it).into_iter().last().map(|(i, _)| i) == if at < 3 { Some(ids[2]) } else { None }, "last() is the last submessage");
        let every: Vec<_> = (&it).into_iter().step_by(2).map(|(i, _)| i).collect();
        s::check(every.iter().eq(ids[at..].iter().step_by(2)), "step_by(2) yields every other submessage");
        let all: Vec<_> = it.map(|(i, _)| i).collect();
        s::check(all == ids[at..], "collecting gives what is left");
    }
    // nth() with any argument, wherever the iterator stands
    fn c07_nth(_n) {
        let (b, _) = sample();
        let g = match grib::from_slice(&b) {
            Ok(g) => g,
            Err(_) => return s::check(false, "a well-formed message is accepted"),
        };
        let ids = [(0usize, 0usize), (0, 1), (1, 0)];
        let mut it = g.iter();
        let mut pos = s::choose(5);
        for _ in 0..pos {
            it.next();
        }
        pos = pos.min(3);
        let k = s::u64();
        let left = 3 - pos;
        let x = it.nth(k as usize).map(|(i, _)| i);
        match x {
            Some(i) => s::check(k < left as u64 && i == ids[pos + s::each(k) as usize], "nth(k) skips k submessages"),
            None => s::check(k >= left as u64, "nth(k) yields what is there"),
        }
        if k >= left as u64 {
            s::check(it.next().is_none(), "nothing is left after skipping all");
            s::check(it.size_hint() == (0, Some(0)), "size_hint() is the number left");
            s::cover(1);
        } else {
            s::cover(2);
        }
        let m = s::u64();
        let y = (&it).into_iter().skip(m as usize).next().map(|(i, _)| i);
        let rest = if k < left as u64 { left as u64 - 1 - k } else { 0 };
        s::check(y.is_some() == (m < rest), "skip(m) leaves what comes after");
    }
    // any sequence of n steps that take, decode and drop submessages of two iterators
    fn c07_kept(n) {
        let data = s::arr::<5>();
        let parts = [&data[..2], &data[2..4], &data[4..]];
        let mut m = Msg::begin(vec![], 0);
        m.sect(1, &[0; 16]);
        for (k, v) in parts.iter().enumerate() {
            if k == 2 {
                m = Msg::begin(m.end().0, 0);
                m.sect(1, &[0; 16]);
            }
            let c = v.len() as u8;
            m.sect(3, &[0, 0, 0, 0, c, 0, 0, 0, 99]).sect(4, &[0, 0, 0, 99]);
            m.sect(5, &[0, 0, 0, c, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0]);
            // a bitmap of its own, or none
            if k == 1 {
                m.sect(6, &[0, 0xc0]);
            } else {
                m.sect(6, &[255]);
            }
            m.sect(7, v);
        }
        let (b, _) = m.end();
        let g = match grib::from_slice(&b) {
            Ok(g) => g,
            Err(_) => return s::check(false, "a well-formed message is accepted"),
        };
        let mut its = [g.iter(), g.iter()];
        let mut kept = vec![];
        let mut at = [0, 0];
        for _ in 0..n {
            match s::choose(4) {
                w @ (0 | 1) => {
                    match its[w].next() {
                        Some((_, x)) => kept.push((at[w], x)),
                        None => s::check(at[w] == 3, "next() yields the next submessage"),
                    }
                    at[w] = (at[w] + 1).min(3);
                }
                op => {
                    s::assume(!kept.is_empty());
                    let (k, x) = kept.remove(s::choose(kept.len() as u8));
                    if op == 2 {
                        let v = grib::Grib2SubmessageDecoder::from(x).and_then(|d| d.dispatch().map(|v| v.collect::<Vec<f32>>()));
                        match v {
                            Ok(v) => {
                                s::check(v.len() == parts[k].len(), "a submessage is decoded whichever others are kept");
                                for (a, b) in v.iter().zip(parts[k]) {
                                    s::check(*a == *b as f32, "a submessage has its own values whichever others are kept");
                                }
                            }
                            Err(_) => s::check(false, "a submessage is decoded whichever others are kept"),
                        }
                        s::cover(2);
                    }
                }
            }
        }
        s::cover(1);
    }
    // list_templates is sorted, without duplicates, and complete
    // many submessages and templates
    fn c08_many(n) {
        let n = n as usize;
        let parts = [1, n / 10, n][s::choose(3)];
        let any = s::choose(2) * 2;
        let odd = [0, 14, 255, 256, 32768, 65535][s::choose(6)];
        let mut b = vec![];
        let mut want: Vec<(u8, u16)> = vec![];
        for p in 0..parts {
            let mut m = Msg::begin(b, 0);
            m.sect(1, &[0; 16]);
            for q in 0..n / parts {
                let k = p * (n / parts) + q;
                // every number twice
                let v = |f: usize| if k == any * (n - 1) / 3 { odd } else { (k * f % n / 2 * 13 + 1) as u16 };
                let (a, c, e) = (v(7), v(11), v(13));
                let (ab, cb, eb) = (a.to_be_bytes(), c.to_be_bytes(), e.to_be_bytes());
                m.sect(3, &[0, 0, 0, 0, 0, 0, 0, ab[0], ab[1]]);
                m.sect(4, &[0, 0, cb[0], cb[1]]);
                m.sect(5, &[0, 0, 0, 0, eb[0], eb[1]]).sect(6, &[255]).sect(7, &[]);
                want.extend([(3, a), (4, c), (5, e)]);
            }
            b = m.end().0;
        }
        let g = match grib::from_slice(&b) {
            Ok(g) => g,
            Err(_) => return s::check(false, "a well-formed message is accepted"),
        };
        let got: Vec<(u8, u16)> = g.list_templates().iter().map(|t| (t.0, s::each(t.1 as u64) as u16)).collect();
        for w in want.iter_mut() {
            w.1 = s::each(w.1 as u64) as u16;
        }
        want.sort_unstable();
        want.dedup();
        s::check(got == want, "the templates used are listed in increasing order, once each");
        s::cover(1);
    }
    fn c08_templates(n) {
        let mut m = Msg::begin(vec![], 0);
        m.sect(1, &[0; 16]);
        let mut want: Vec<(u8, u16)> = vec![];
        for _ in 0..n {
            let (mut a, mut c, mut e) = (1u16, 1u16, 1u16);
            let v = [0u16, 40, 254, 256, 258, 32767, 32769, 65535][s::choose(8)];
            match s::choose(4) {
                0 => a = v,
                1 => c = v,
                2 => e = v,
                _ => (a, c, e) = (v, v, 40),
            }
            let (ab, cb, eb) = (a.to_be_bytes(), c.to_be_bytes(), e.to_be_bytes());
            m.sect(3, &[0, 0, 0, 0, 0, 0, 0, ab[0], ab[1]]);
            m.sect(4, &[0, 0, cb[0], cb[1]]);
            m.sect(5, &[0, 0, 0, 0, eb[0], eb[1]]).sect(6, &[255]).sect(7, &[]);
            want.extend([(3, a), (4, c), (5, e)]);
        }
        let (b, _) = m.end();
        let g = match grib::from_slice(&b) {
            Ok(g) => g,
            Err(_) => return s::check(false, "a well-formed message is accepted"),
        };
        let got = g.list_templates();
        s::cover(1);
        for w in got.windows(2) {
            s::check((w[0].0, w[0].1) < (w[1].0, w[1].1), "templates are listed in increasing order, once each");
        }
        for w in want.iter() {
            let mut found = false;
            for x in got.iter() { found = found | ((x.0 == w.0) & (x.1 == w.1)); }
            s::check(found, "every template used is listed");
        }
        for x in got.iter() {
            let mut found = false;
            for w in want.iter() { found = found | ((x.0 == w.0) & (x.1 == w.1)); }
            s::check(found, "only templates used are listed");
        }
    }
}

/// Three points, simple packing, 4 bits each.
pub fn small_data_message() -> (Vec<u8>, Vec<(u8, usize, usize)>) {
    let mut m = Msg::begin(vec![], 0);
    m.sect(1, &[0; 16])
        .sect(3, &[0, 0, 0, 0, 3, 0, 0, 0, 0])
        .sect(4, &[0; 4]);
    m.sect(5, &[0, 0, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0]);
    m.sect(6, &[255]).sect(7, &[0x13, 0x20]);
    m.end()
}

/// `n` points of one octet, with a bitmap of ones; one of them any octet.
fn big_data_message(n: usize) -> (Vec<u8>, Vec<(u8, usize, usize)>, Vec<f32>) {
    let mut data: Vec<u8> = (0..n).map(|k| (k * 7 + k / 256) as u8).collect();
    data[[0, 4090, 4096, n / 2, n - 1][s::choose(5)]] = s::u8();
    let count = (n as u32).to_be_bytes();
    let mut m = Msg::begin(vec![], 0);
    m.sect(1, &[0; 16]).sect(3, &[0, count[0], count[1], count[2], count[3], 0, 0, 0, 0]).sect(4, &[0; 4]);
    m.sect(5, &[count[0], count[1], count[2], count[3], 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0]);
    let mut bits = vec![255; n.div_ceil(8)];
    bits.insert(0, 0);
    m.sect(6, &bits).sect(7, &data);
    let (b, want) = m.end();
    (b, want, data.iter().map(|&x| x as f32).collect())
}

fn decode_all<R: Read + Seek>(r: R) -> Result<Vec<u32>, ()> {
    let g = grib::from_reader(r).map_err(|_| ())?;
    let (_, m) = g.iter().next().ok_or(())?;
    let d = grib::Grib2SubmessageDecoder::from(m).map_err(|_| ())?;
    let v = d.dispatch().map_err(|_| ())?;
    Ok(v.map(|x| x.to_bits()).collect())
}
