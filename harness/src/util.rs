//! Message builders shared by the harnesses.
use crate::s;

pub struct Msg {
    pub b: Vec<u8>,
    pub start: usize,
    /// (number, offset, size) of every section appended so far
    pub sects: Vec<(u8, usize, usize)>,
}

impl Msg {
    /// Begins a message after whatever `b` already holds.
    pub fn begin(b: Vec<u8>, discipline: u8) -> Self {
        let start = b.len();
        let mut m = Msg {
            b,
            start,
            sects: vec![],
        };
        m.b.extend_from_slice(b"GRIB\xff\xff");
        m.b.push(discipline);
        m.b.push(2);
        m.b.extend_from_slice(&[0; 8]);
        m.sects.push((0, start, 16));
        m
    }
    pub fn sect(&mut self, num: u8, body: &[u8]) -> &mut Self {
        let off = self.b.len();
        let size = body.len() + 5;
        self.b.extend_from_slice(&(size as u32).to_be_bytes());
        self.b.push(num);
        self.b.extend_from_slice(body);
        self.sects.push((num, off, size));
        self
    }
    pub fn end(mut self) -> (Vec<u8>, Vec<(u8, usize, usize)>) {
        self.sects.push((8, self.b.len(), 4));
        self.b.extend_from_slice(b"7777");
        let n = (self.b.len() - self.start) as u64;
        self.b[self.start + 8..self.start + 16].copy_from_slice(&n.to_be_bytes());
        (self.b, self.sects)
    }
}

/// n symbolic bytes whose value does not matter to the caller.
pub fn any(n: usize) -> Vec<u8> {
    s::bytes(n)
}

pub fn be16(b: &[u8], i: usize) -> u16 {
    (b[i] as u16) << 8 | b[i + 1] as u16
}
pub fn be32(b: &[u8], i: usize) -> u32 {
    (be16(b, i) as u32) << 16 | be16(b, i + 2) as u32
}
pub fn be64(b: &[u8], i: usize) -> u64 {
    (be32(b, i) as u64) << 32 | be32(b, i + 4) as u64
}
/// sign bit + magnitude, as WMO Manual on Codes regulation 92.1.5 prescribes
pub fn sm8(b: u8) -> i32 {
    let m = (b & 0x7f) as i32;
    if b & 0x80 != 0 {
        -m
    } else {
        m
    }
}
pub fn sm16(b: u16) -> i32 {
    let m = (b & 0x7fff) as i32;
    if b & 0x8000 != 0 {
        -m
    } else {
        m
    }
}
pub fn sm32(b: u32) -> i32 {
    let m = (b & 0x7fff_ffff) as i32;
    if b & 0x8000_0000 != 0 {
        -m
    } else {
        m
    }
}

/// n bits of d from bit `at`, most significant first
pub fn bits(d: &[u8], at: usize, n: usize) -> u64 {
    let mut v = 0;
    for k in at..at + n {
        v = v << 1 | (d[k / 8] >> (7 - k % 8) & 1) as u64;
    }
    v
}

/// Parameters common to the packing templates (octets 12-21 of Section 5).
#[derive(Clone, Copy)]
pub struct Packing {
    pub r: f32,
    pub e: i32,
    pub d: i32,
    pub octets: [u8; 10],
}

impl Packing {
    /// any reference value, binary and decimal scale factor
    pub fn any(nbit: u8) -> Self {
        let mut o: [u8; 10] = s::arr();
        o[8] = nbit;
        o[9] = 0;
        Self::of(o)
    }
    pub fn of(octets: [u8; 10]) -> Self {
        Packing {
            r: f32::from_bits(be32(&octets, 0)),
            e: sm16(be16(&octets, 4)),
            d: sm16(be16(&octets, 6)),
            octets,
        }
    }
    /// Y = (R + X * 2^E) / 10^D
    fn formula(&self, x: f32) -> f32 {
        (self.r + x * 2f32.powi(self.e)) * 10f32.powi(-self.d)
    }
    /// Checks that `got` is what the packing formula gives for the integer `x` (`xf` as a float).
    /// When it is not so by construction, the comparison is made with a tolerance, for a few
    /// values of the parameters and data. An `x` beyond 32 bits (signed) is compared by
    /// construction only.
    pub fn check(&self, got: f32, x: i64, xf: f32, pinned: &[&[u8]], what: &'static str) {
        let want = self.formula(xf);
        let preset = |k: usize| {
            let c = [
                [0x3f, 0xc0, 0, 0, 0, 1, 0, 1],
                [0xc5, 0x1c, 0x40, 0, 0x80, 3, 0x80, 1],
                [0u8, 0, 0, 0, 0, 0, 0, 0],
                // large and small numbers in between
                [0, 0, 0, 0, 0x80, 130, 0x80, 37],
                [0, 0, 0, 0, 0, 90, 0, 20],
                // minus zero
                [0x3f, 0x80, 0, 0, 0x80, 0, 0x80, 0],
            ];
            s::prefer(x > -(1 << 20) && x < 1 << 20);
            if k < PRESETS {
                for i in 0..8 {
                    s::assume(self.octets[i] == c[k][i]);
                }
            }
            for b in &self.octets {
                s::pin(*b as u64);
            }
        };
        same(got, want, preset, pinned, what, || {
            s::assume(x as i32 as i64 == x || x as u32 as i64 == x && xf >= 0.0);
            let f = 10f64.powi(-self.d);
            let (r, xe) = (self.r as f64, x as f64 * 2f64.powi(self.e));
            (self.formula(xf), (r + xe) * f, (r.abs() + xe.abs()) * f)
        });
    }
}

pub const PRESETS: usize = 6;

/// Checks that `got` is `want`: either the same floating-point operations on equal integers, or,
/// for a few values of the parameters (`preset`) and the bytes in `pinned`, within a relative
/// tolerance of `approx` = (want, value in double precision, magnitude of its terms).
pub fn same(
    got: f32,
    want: f32,
    preset: impl Fn(usize),
    pinned: &[&[u8]],
    what: &'static str,
    approx: impl Fn() -> (f32, f64, f64),
) {
    if s::known(got.to_bits() as u64, want.to_bits() as u64) {
        s::check(true, what);
        return;
    }
    let k = if s::concrete(got.to_bits() as u64) {
        PRESETS
    } else {
        s::choose(PRESETS as u8 + 1)
    };
    preset(k);
    if k == PRESETS {
        s::differ();
    }
    for (i, b) in pinned.iter().flat_map(|b| b.iter()).enumerate() {
        if k < PRESETS {
            s::prefer(*b == (i * 37 + k * 11 + 5) as u8);
        }
        if k == PRESETS {
            s::pin(*b as u64);
        }
    }
    if k < PRESETS {
        s::differ();
        for b in pinned.iter().flat_map(|b| b.iter()) {
            s::pin(*b as u64);
        }
    }
    let (want, exact, mag) = approx();
    if want.is_nan() || got.is_nan() || want.is_infinite() || want == 0.0 {
        s::check(got == want || got.is_nan() && want.is_nan(), what);
        return;
    }
    s::check((got as f64 - exact).abs() <= 1e-5 * mag, what);
}
