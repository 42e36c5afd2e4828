//! Hash-consed bit-vector expression pool with a rewriting constructor and an evaluator.
//!
//! Every value the executed program computes from a symbolic input is a node here.
//! Width-1 nodes are booleans. Floats are bit-vectors of width 32/64; float operations are
//! nodes of their own, evaluated natively on concrete bits and given IEEE semantics in z3.

use std::collections::BTreeMap;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Not,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,  // a = high, b = low
    Extract, // aux = low bit
    SExt,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FSqrt,
    FCeil,
    FFloor,
    FTrunc,
    FRint,
    FRound,
    FEq,  // ordered equal
    FLt,  // ordered less than
    FLe,  // ordered less or equal
    FUno, // a is NaN
    SiToF,
    UiToF,
    FToSiSat,
    FToUiSat,
    FExt,
    FToF32,
    Powi, // (float, i32)
    Math, // aux = MathFn, (a [, b])
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128, // constant value / extract offset / variable index / math function
}

pub const NONE: E = u32::MAX;

pub struct Pool {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    fr: FxMap<E, Option<(f64, f64)>>,
    /// nesting of each expression
    height: Vec<u32>,
    /// deeply nested sums, with equal terms put together
    flat: FxMap<E, E>,
    extracts: FxMap<(E, u16, u16), E>,
    vars: Vec<Option<Rc<[u32]>>>,
    evgen: Vec<u64>,
    evval: Vec<u128>,
    pub var_names: Vec<(String, u16)>,
    sr: Vec<Option<(i128, i128)>>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u16) -> i128 {
    let sh = 128 - w as u32;
    ((v << sh) as i128) >> sh
}

pub const MATH_FNS: &[&str] = &[
    "cos", "sin", "tan", "exp", "exp2", "log", "log2", "log10", "pow", "acos", "asin", "atan",
    "atan2", "cosh", "sinh", "tanh", "hypot", "cbrt", "ldexp",
];

/// compiler-rt's __powisf2 / __powidf2
fn powi32(mut a: f32, b: i32) -> f32 {
    let recip = b < 0;
    let mut b = b as i64;
    let mut r = 1f32;
    loop {
        if b & 1 != 0 {
            r *= a;
        }
        b /= 2;
        if b == 0 {
            break;
        }
        a *= a;
    }
    if recip {
        1.0 / r
    } else {
        r
    }
}
fn powi64(mut a: f64, b: i32) -> f64 {
    let recip = b < 0;
    let mut b = b as i64;
    let mut r = 1f64;
    loop {
        if b & 1 != 0 {
            r *= a;
        }
        b /= 2;
        if b == 0 {
            break;
        }
        a *= a;
    }
    if recip {
        1.0 / r
    } else {
        r
    }
}

fn math(k: usize, w: u16, a: u128, b: u128) -> u128 {
    if w == 32 {
        let x = f32::from_bits(a as u32);
        let y = f32::from_bits(b as u32);
        let r = match MATH_FNS[k] {
            "cos" => x.cos(),
            "sin" => x.sin(),
            "tan" => x.tan(),
            "exp" => x.exp(),
            "exp2" => x.exp2(),
            "log" => x.ln(),
            "log2" => x.log2(),
            "log10" => x.log10(),
            "pow" => x.powf(y),
            "acos" => x.acos(),
            "asin" => x.asin(),
            "atan" => x.atan(),
            "atan2" => x.atan2(y),
            "cosh" => x.cosh(),
            "sinh" => x.sinh(),
            "tanh" => x.tanh(),
            "hypot" => x.hypot(y),
            "cbrt" => x.cbrt(),
            "ldexp" => ldexp64(x as f64, b as u32 as i32) as f32,
            _ => unreachable!(),
        };
        r.to_bits() as u128
    } else {
        let x = f64::from_bits(a as u64);
        let y = f64::from_bits(b as u64);
        let r = match MATH_FNS[k] {
            "cos" => x.cos(),
            "sin" => x.sin(),
            "tan" => x.tan(),
            "exp" => x.exp(),
            "exp2" => x.exp2(),
            "log" => x.ln(),
            "log2" => x.log2(),
            "log10" => x.log10(),
            "pow" => x.powf(y),
            "acos" => x.acos(),
            "asin" => x.asin(),
            "atan" => x.atan(),
            "atan2" => x.atan2(y),
            "cosh" => x.cosh(),
            "sinh" => x.sinh(),
            "tanh" => x.tanh(),
            "hypot" => x.hypot(y),
            "cbrt" => x.cbrt(),
            "ldexp" => ldexp64(x, b as u32 as i32),
            _ => unreachable!(),
        };
        r.to_bits() as u128
    }
}

fn ldexp64(mut x: f64, mut e: i32) -> f64 {
    e = e.clamp(-4000, 4000);
    while e > 1000 {
        x *= 2f64.powi(1000);
        e -= 1000;
    }
    while e < -1000 {
        x *= 2f64.powi(-1000);
        e += 1000;
    }
    x * 2f64.powi(e)
}

/// Concrete semantics of one operation. `w` is the result width, `wa` the width of operand a.
pub fn apply(op: Op, w: u16, wa: u16, a: u128, b: u128, c: u128, k: u128) -> u128 {
    let m = mask(w);
    macro_rules! f1 {
        ($x:ident, $e:expr, $y:ident, $g:expr) => {
            if wa == 32 {
                let $x = f32::from_bits(a as u32);
                ($e).to_bits() as u128
            } else {
                let $y = f64::from_bits(a as u64);
                ($g).to_bits() as u128
            }
        };
    }
    macro_rules! f2 {
        ($op:tt) => {
            if wa == 32 {
                (f32::from_bits(a as u32) $op f32::from_bits(b as u32)).to_bits() as u128
            } else {
                (f64::from_bits(a as u64) $op f64::from_bits(b as u64)).to_bits() as u128
            }
        };
    }
    macro_rules! fc {
        ($op:tt) => {
            if wa == 32 {
                (f32::from_bits(a as u32) $op f32::from_bits(b as u32)) as u128
            } else {
                (f64::from_bits(a as u64) $op f64::from_bits(b as u64)) as u128
            }
        };
    }
    match op {
        Op::Const | Op::Var => k,
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 {
                w as u32 - 1
            } else {
                b as u32
            };
            ((sx(a, w) >> s) as u128) & m
        }
        Op::Not => !a & m,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, wa) < sx(b, wa)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Concat => unreachable!(),
        Op::Extract => (a >> k) & m,
        Op::SExt => (sx(a, wa) as u128) & m,
        Op::FAdd => f2!(+),
        Op::FSub => f2!(-),
        Op::FMul => f2!(*),
        Op::FDiv => f2!(/),
        Op::FRem => f2!(%),
        Op::FSqrt => f1!(x, x.sqrt(), y, y.sqrt()),
        Op::FCeil => f1!(x, x.ceil(), y, y.ceil()),
        Op::FFloor => f1!(x, x.floor(), y, y.floor()),
        Op::FTrunc => f1!(x, x.trunc(), y, y.trunc()),
        Op::FRint => f1!(x, x.round_ties_even(), y, y.round_ties_even()),
        Op::FRound => f1!(x, x.round(), y, y.round()),
        Op::FEq => fc!(==),
        Op::FLt => fc!(<),
        Op::FLe => fc!(<=),
        Op::FUno => {
            if wa == 32 {
                f32::from_bits(a as u32).is_nan() as u128
            } else {
                f64::from_bits(a as u64).is_nan() as u128
            }
        }
        Op::SiToF => {
            let v = sx(a, wa);
            if w == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        Op::UiToF => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::FToSiSat => {
            let lo = -(1i128 << (w - 1));
            let hi = (1i128 << (w - 1)) - 1;
            let v = if wa == 32 {
                f32::from_bits(a as u32) as i128
            } else {
                f64::from_bits(a as u64) as i128
            };
            (v.clamp(lo, hi) as u128) & m
        }
        Op::FToUiSat => {
            let v = if wa == 32 {
                f32::from_bits(a as u32) as u128
            } else {
                f64::from_bits(a as u64) as u128
            };
            v.min(m)
        }
        Op::FExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        Op::FToF32 => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        Op::Powi => {
            if wa == 32 {
                powi32(f32::from_bits(a as u32), b as u32 as i32).to_bits() as u128
            } else {
                powi64(f64::from_bits(a as u64), b as u32 as i32).to_bits() as u128
            }
        }
        Op::Math => math(k as usize, w, a, b),
    }
}

struct Linear<'a> {
    w: u16,
    t: BTreeMap<E, u128>,
    c: u128,
    todo: BTreeMap<(E, bool), u128>,
    steps: u32,
    facts: &'a dyn Fn(E) -> bool,
    open: Option<E>,
}
impl Linear<'_> {
    fn wait(&mut self, e: E, zext: bool, k: u128) {
        let t = self.todo.entry((e, zext)).or_insert(0);
        *t = t.wrapping_add(k) & mask(self.w);
    }
    fn add(&mut self, e: E, k: u128) {
        let t = self.t.entry(e).or_insert(0);
        *t = t.wrapping_add(k) & mask(self.w);
    }
    fn known(&self, p: &mut Pool, c: E) -> Option<bool> {
        if let Some(k) = p.cval(c) {
            return Some(k == 1);
        }
        if (self.facts)(c) {
            return Some(true);
        }
        let n = p.not(c);
        (self.facts)(n).then_some(false)
    }
}

impl Pool {
    pub fn new() -> Self {
        Pool {
            nodes: vec![],
            map: Default::default(),
            fr: Default::default(),
            extracts: FxMap::default(),
            height: vec![],
            flat: FxMap::default(),
            vars: vec![],
            evgen: vec![],
            evval: vec![],
            var_names: vec![],
            sr: vec![],
        }
    }

    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    fn raw(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let h = |e: E| self.height.get(e as usize).map_or(0, |h| *h);
        let height = h(n.a).max(h(n.b)).max(h(n.c)).saturating_add(1);
        self.height.push(height);
        self.nodes.push(n);
        self.vars.push(None);
        self.evgen.push(0);
        self.evval.push(0);
        self.map.insert(n, e);
        e
    }

    pub fn c(&mut self, w: u16, v: u128) -> E {
        let k = v & mask(w);
        self.raw(Node {
            op: Op::Const,
            w,
            a: NONE,
            b: NONE,
            c: NONE,
            k,
        })
    }

    pub fn var(&mut self, name: &str, w: u16) -> E {
        let k = self.var_names.len() as u128;
        self.var_names.push((name.to_string(), w));
        self.raw(Node {
            op: Op::Var,
            w,
            a: NONE,
            b: NONE,
            c: NONE,
            k,
        })
    }

    pub fn var_by_index(&mut self, k: usize) -> E {
        let w = self.var_names[k].1;
        self.raw(Node {
            op: Op::Var,
            w,
            a: NONE,
            b: NONE,
            c: NONE,
            k: k as u128,
        })
    }

    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
        self.raw(Node { op, w, a, b, c, k })
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => self.c(n.w, !n.k),
            Op::Not => n.a,
            _ => self.mk(Op::Not, n.w, a, NONE, NONE, 0),
        }
    }

    /// A condition (or its opposite) with the negations at its atoms.
    pub fn nnf(&mut self, a: E, neg: bool) -> E {
        let n = self.n(a);
        match n.op {
            Op::Not => self.nnf(n.a, !neg),
            Op::And | Op::Or if n.w == 1 => {
                let (p, q) = (self.nnf(n.a, neg), self.nnf(n.b, neg));
                let op = if (n.op == Op::And) != neg {
                    Op::And
                } else {
                    Op::Or
                };
                self.mk(op, 1, p.min(q), p.max(q), NONE, 0)
            }
            _ if neg => self.not(a),
            _ => a,
        }
    }

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (h, l) = (self.n(hi), self.n(lo));
        let w = h.w + l.w;
        assert!(w <= 128, "concat too wide");
        if h.op == Op::Const && l.op == Op::Const {
            return self.c(w, (h.k << l.w) | l.k);
        }
        // merge adjacent extracts
        if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.k == l.k + l.w as u128 {
            return self.extract(h.a, l.k as u16, w);
        }
        // an extract that was pushed into the operation it was taken from
        if h.op == Op::Extract
            && h.k >= l.w as u128
            && matches!(
                l.op,
                Op::Add
                    | Op::Sub
                    | Op::Mul
                    | Op::And
                    | Op::Or
                    | Op::Xor
                    | Op::Not
                    | Op::Ite
                    | Op::SExt
            )
            && self.extract(h.a, h.k as u16 - l.w, l.w) == lo
        {
            return self.extract(h.a, h.k as u16 - l.w, w);
        }
        // pieces of one choice with a constant alternative
        if let Some(e) = self.concat_ites(h, l) {
            return e;
        }
        // right-associate: concat(concat(x,y),lo) -> concat(x, concat(y,lo))
        if h.op == Op::Concat {
            let inner = self.concat(h.b, lo);
            return self.concat(h.a, inner);
        }
        // concat(hi, concat(l1, l2)): merge hi with l1 where possible
        if l.op == Op::Concat {
            let l1 = self.n(l.a);
            if h.op == Op::Const && l1.op == Op::Const {
                let c = self.c(h.w + l1.w, (h.k << l1.w) | l1.k);
                return self.concat(c, l.b);
            }
            if h.op == Op::Extract
                && l1.op == Op::Extract
                && h.a == l1.a
                && h.k == l1.k + l1.w as u128
            {
                let x = self.extract(h.a, l1.k as u16, h.w + l1.w);
                return self.concat(x, l.b);
            }
            if let Some(x) = self.concat_ites(h, l1) {
                return self.concat(x, l.b);
            }
        }
        // sign-extension pieces and ite distribution are left alone
        self.mk(Op::Concat, w, hi, lo, NONE, 0)
    }

    /// e with the expressions of `map` replaced, simplified again
    pub fn subst(&mut self, e: E, map: &mut std::collections::HashMap<E, E>) -> E {
        if let Some(&r) = map.get(&e) {
            return r;
        }
        let n = self.n(e);
        if matches!(n.op, Op::Const | Op::Var) {
            return e;
        }
        let mut sub = |s: &mut Self, x: E| if x == NONE { NONE } else { s.subst(x, map) };
        let (a, b, c) = (sub(self, n.a), sub(self, n.b), sub(self, n.c));
        let r = if (a, b, c) == (n.a, n.b, n.c) {
            e
        } else {
            match n.op {
                Op::Add
                | Op::Sub
                | Op::Mul
                | Op::UDiv
                | Op::SDiv
                | Op::URem
                | Op::SRem
                | Op::And
                | Op::Or
                | Op::Xor
                | Op::Shl
                | Op::LShr
                | Op::AShr => self.bin(n.op, a, b),
                Op::Not => self.not(a),
                Op::Eq => self.eq(a, b),
                Op::Ult => self.ult(a, b),
                Op::Slt => self.slt(a, b),
                Op::Ite => self.ite(a, b, c),
                Op::Concat => self.concat(a, b),
                Op::Extract => self.extract(a, n.k as u16, n.w),
                Op::SExt => self.sext(a, n.w),
                // floating-point operations keep their operands' structure
                _ => self.mk(n.op, n.w, a, b, c, n.k),
            }
        };
        map.insert(e, r);
        r
    }

    /// Whether products of unknowns occur in e; the innermost condition of a choice in it.
    pub fn choices(
        &self,
        e: E,
        seen: &mut std::collections::HashSet<E>,
        product: &mut bool,
        cond: &mut Option<E>,
    ) {
        if e == NONE || !seen.insert(e) {
            return;
        }
        let n = self.n(e);
        for x in [n.a, n.b, n.c] {
            self.choices(x, seen, product, cond);
        }
        match n.op {
            Op::Mul if self.cval(n.a).is_none() && self.cval(n.b).is_none() => *product = true,
            Op::Ite if cond.is_none() => *cond = Some(n.a),
            _ => {}
        }
    }

    fn concat_ites(&mut self, h: Node, l: Node) -> Option<E> {
        if h.op != Op::Ite || l.op != Op::Ite || h.a != l.a {
            return None;
        }
        let k = |s: &Self, e: E| s.n(e).op == Op::Const;
        if k(self, h.b) && k(self, l.b) || k(self, h.c) && k(self, l.c) {
            let (p, q) = (self.concat(h.b, l.b), self.concat(h.c, l.c));
            return Some(self.ite(h.a, p, q));
        }
        None
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let z = self.c(w - wa, 0);
        self.concat(z, a)
    }

    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if n.op == Op::Const {
            return self.c(w, sx(n.k, n.w) as u128);
        }
        if n.op == Op::Concat {
            let h = self.n(n.a);
            if h.op == Op::Const && h.k >> (h.w - 1) == 0 {
                return self.zext(a, w);
            }
        }
        self.mk(Op::SExt, w, a, NONE, NONE, 0)
    }

    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        debug_assert!(lo + w <= n.w);
        if w == n.w {
            return a;
        }
        // operators the extraction is pushed into, each node once
        if matches!(
            n.op,
            Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Ite | Op::Shl
        ) {
            if let Some(&e) = self.extracts.get(&(a, lo, w)) {
                return e;
            }
            let e = self.extract_(a, lo, w);
            self.extracts.insert((a, lo, w), e);
            return e;
        }
        self.extract_(a, lo, w)
    }

    fn extract_(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => self.c(w, n.k >> lo),
            Op::Extract => self.extract(n.a, n.k as u16 + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else {
                    let hi = self.extract(n.a, 0, lo + w - lw);
                    let low = self.extract(n.b, lo, lw - lo);
                    self.concat(hi, low)
                }
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.mk(Op::Extract, w, a, NONE, NONE, lo as u128)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                self.not(x)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            Op::Ite => {
                let (x, y) = (self.n(n.b), self.n(n.c));
                if x.op == Op::Const || y.op == Op::Const {
                    let p = self.extract(n.b, lo, w);
                    let q = self.extract(n.c, lo, w);
                    self.ite(n.a, p, q)
                } else {
                    self.mk(Op::Extract, w, a, NONE, NONE, lo as u128)
                }
            }
            _ => self.mk(Op::Extract, w, a, NONE, NONE, lo as u128),
        }
    }

    /// `e` with the first bit of its leading part set to `bit` if that part is `v`
    fn leading(&mut self, e: E, v: E, bit: u128) -> E {
        let n = self.n(e);
        let w = self.w(v);
        let part = |p: &mut Self| {
            let (b, r) = (p.c(1, bit), p.extract(v, 0, w - 1));
            p.concat(b, r)
        };
        if e == v {
            part(self)
        } else if n.op == Op::Concat && n.a == v {
            let h = part(self);
            self.concat(h, n.b)
        } else {
            e
        }
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let cn = self.n(c);
        match cn.op {
            Op::Const => return if cn.k != 0 { a } else { b },
            Op::Not => return self.ite(cn.a, b, a),
            _ => {}
        }
        // the leading bit is known where it decides
        let (mut a, mut b) = (a, b);
        if cn.op == Op::Extract && cn.w == 1 && cn.k + 1 == self.w(cn.a) as u128 && cn.k > 0 {
            a = self.leading(a, cn.a, 1);
            b = self.leading(b, cn.a, 0);
            if a == b {
                return a;
            }
        }
        let (an, bn) = (self.n(a), self.n(b));
        if an.w == 1 {
            match (an.op, bn.op) {
                (Op::Const, Op::Const) => {
                    return if an.k == 1 { c } else { self.not(c) };
                }
                (Op::Const, _) => {
                    return if an.k == 1 {
                        self.bin(Op::Or, c, b)
                    } else {
                        let nc = self.not(c);
                        self.bin(Op::And, nc, b)
                    };
                }
                (_, Op::Const) => {
                    return if bn.k == 1 {
                        let nc = self.not(c);
                        self.bin(Op::Or, nc, a)
                    } else {
                        self.bin(Op::And, c, a)
                    };
                }
                _ => {}
            }
        }
        // ite(c, ite(c, x, y), b) -> ite(c, x, b)
        if an.op == Op::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        self.mk(Op::Ite, an.w, c, a, b, 0)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(1, 1);
        }
        let (mut a, mut b) = (a, b);
        let (mut an, mut bn) = (self.n(a), self.n(b));
        debug_assert_eq!(an.w, bn.w);
        if an.op == Op::Const && bn.op == Op::Const {
            return self.c(1, (an.k == bn.k) as u128);
        }
        if an.op == Op::Const || (bn.op != Op::Const && a > b) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut an, &mut bn);
        }
        if bn.op == Op::Const {
            if an.w == 1 {
                return if bn.k == 1 { a } else { self.not(a) };
            }
            match an.op {
                Op::Concat => {
                    let lw = self.w(an.b);
                    let hw = self.w(an.a);
                    let hc = self.c(hw, bn.k >> lw);
                    let lc = self.c(lw, bn.k);
                    let x = self.eq(an.a, hc);
                    if self.cval(x) == Some(0) {
                        return x;
                    }
                    let y = self.eq(an.b, lc);
                    return self.bin(Op::And, x, y);
                }
                Op::SExt => {
                    let wa = self.w(an.a);
                    let lowc = bn.k & mask(wa);
                    if (sx(lowc, wa) as u128) & mask(an.w) != bn.k {
                        return self.c(1, 0);
                    }
                    let lc = self.c(wa, lowc);
                    return self.eq(an.a, lc);
                }
                Op::Ite => {
                    let (x, y) = (self.cval(an.b), self.cval(an.c));
                    if x.is_some() || y.is_some() {
                        let p = self.eq(an.b, b);
                        let q = self.eq(an.c, b);
                        return self.ite(an.a, p, q);
                    }
                }
                Op::Add => {
                    if let Some(k) = self.cval(an.b) {
                        let nk = self.c(an.w, bn.k.wrapping_sub(k));
                        return self.eq(an.a, nk);
                    }
                }
                Op::Xor => {
                    if let Some(k) = self.cval(an.b) {
                        let nk = self.c(an.w, bn.k ^ k);
                        return self.eq(an.a, nk);
                    }
                }
                Op::Not => {
                    let nk = self.c(an.w, !bn.k);
                    return self.eq(an.a, nk);
                }
                _ => {}
            }
        } else if an.op == Op::Concat && bn.op == Op::Concat {
            let (lw1, lw2) = (self.w(an.b), self.w(bn.b));
            if lw1 == lw2 {
                let x = self.eq(an.a, bn.a);
                if self.cval(x) == Some(0) {
                    return x;
                }
                let y = self.eq(an.b, bn.b);
                return self.bin(Op::And, x, y);
            }
        }
        if an.w == 1 {
            let x = self.bin(Op::Xor, a, b);
            return self.not(x);
        }
        self.mk(Op::Eq, 1, a, b, NONE, 0)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(1, 0);
        }
        let (an, bn) = (self.n(a), self.n(b));
        debug_assert_eq!(an.w, bn.w);
        match (an.op, bn.op) {
            (Op::Const, Op::Const) => return self.c(1, (an.k < bn.k) as u128),
            (_, Op::Const) => {
                if bn.k == 0 {
                    return self.c(1, 0);
                }
                if bn.k == 1 {
                    let z = self.c(an.w, 0);
                    return self.eq(a, z);
                }
                if an.op == Op::Concat {
                    if let Some(h) = self.cval(an.a) {
                        let lw = self.w(an.b);
                        let kh = bn.k >> lw;
                        if h < kh {
                            return self.c(1, 1);
                        }
                        if h > kh {
                            return self.c(1, 0);
                        }
                        let lc = self.c(lw, bn.k);
                        return self.ult(an.b, lc);
                    }
                }
                if an.op == Op::Ite && (self.cval(an.b).is_some() || self.cval(an.c).is_some()) {
                    let p = self.ult(an.b, b);
                    let q = self.ult(an.c, b);
                    return self.ite(an.a, p, q);
                }
                // max bound
                if an.w <= 64 && bn.k == mask(an.w) {
                    let e = self.eq(a, b);
                    return self.not(e);
                }
            }
            (Op::Const, _) => {
                if an.k == mask(an.w) {
                    return self.c(1, 0);
                }
                if an.k == 0 {
                    let e = self.eq(b, a);
                    return self.not(e);
                }
                if bn.op == Op::Concat {
                    if let Some(h) = self.cval(bn.a) {
                        let lw = self.w(bn.b);
                        let kh = an.k >> lw;
                        if kh < h {
                            return self.c(1, 1);
                        }
                        if kh > h {
                            return self.c(1, 0);
                        }
                        let lc = self.c(lw, an.k);
                        return self.ult(lc, bn.b);
                    }
                }
                if bn.op == Op::Ite && (self.cval(bn.b).is_some() || self.cval(bn.c).is_some()) {
                    let p = self.ult(a, bn.b);
                    let q = self.ult(a, bn.c);
                    return self.ite(bn.a, p, q);
                }
            }
            (Op::Concat, Op::Concat) => {
                let (lw1, lw2) = (self.w(an.b), self.w(bn.b));
                if lw1 == lw2 && an.a == bn.a {
                    return self.ult(an.b, bn.b);
                }
            }
            _ => {}
        }
        if an.w == 1 {
            let na = self.not(a);
            return self.bin(Op::And, na, b);
        }
        self.mk(Op::Ult, 1, a, b, NONE, 0)
    }

    fn top_zero(&self, e: E) -> bool {
        let n = self.n(e);
        match n.op {
            Op::Const => n.k >> (n.w - 1) == 0,
            Op::Concat => {
                let h = self.n(n.a);
                h.op == Op::Const && h.k >> (h.w - 1) == 0
            }
            _ => false,
        }
    }

    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(1, 0);
        }
        let (an, bn) = (self.n(a), self.n(b));
        if an.op == Op::Const && bn.op == Op::Const {
            return self.c(1, (sx(an.k, an.w) < sx(bn.k, bn.w)) as u128);
        }
        if self.top_zero(a) && self.top_zero(b) {
            return self.ult(a, b);
        }
        if an.w <= 64 {
            let (x, y) = (self.srange(a), self.srange(b));
            if x.1 < y.0 {
                return self.c(1, 1);
            }
            if x.0 >= y.1 {
                return self.c(1, 0);
            }
        }
        if bn.op == Op::Const && bn.k == 0 {
            return self.extract(a, an.w - 1, 1);
        }
        if bn.op == Op::Const && self.top_zero(a) {
            // a >= 0, b < 0
            return self.c(1, 0);
        }
        if an.op == Op::Const && self.top_zero(b) {
            return self.c(1, 1);
        }
        if an.op == Op::Const && an.k == mask(an.w) {
            let s = self.extract(b, an.w - 1, 1);
            return self.not(s);
        }
        if an.w == 1 {
            let nb = self.not(b);
            return self.bin(Op::And, a, nb);
        }
        if bn.op == Op::Const
            && an.op == Op::Ite
            && (self.cval(an.b).is_some() || self.cval(an.c).is_some())
        {
            let p = self.slt(an.b, b);
            let q = self.slt(an.c, b);
            return self.ite(an.a, p, q);
        }
        self.mk(Op::Slt, 1, a, b, NONE, 0)
    }

    /// Number of known-zero low bits.
    pub fn tz(&self, e: E) -> u16 {
        self.tzd(e, 24)
    }
    fn tzd(&self, e: E, d: u32) -> u16 {
        let n = self.n(e);
        if n.op == Op::Const {
            return if n.k == 0 {
                n.w
            } else {
                (n.k.trailing_zeros() as u16).min(n.w)
            };
        }
        if d == 0 {
            return 0;
        }
        let d = d - 1;
        match n.op {
            Op::Concat => {
                let l = self.tzd(n.b, d);
                if l == self.w(n.b) {
                    l + self.tzd(n.a, d)
                } else {
                    l
                }
            }
            Op::Add | Op::Sub | Op::Or | Op::Xor => {
                let x = self.tzd(n.b, d.min(6));
                if x == 0 {
                    0
                } else {
                    self.tzd(n.a, d).min(x)
                }
            }
            Op::Mul => (self.tzd(n.a, d.min(6)) + self.tzd(n.b, d.min(6))).min(n.w),
            Op::And => self.tzd(n.a, d.min(6)).max(self.tzd(n.b, d.min(6))),
            Op::Ite => {
                let x = self.tzd(n.b, d.min(6));
                if x == 0 {
                    0
                } else {
                    self.tzd(n.c, d).min(x)
                }
            }
            _ => 0,
        }
    }

    /// Number of known-zero high bits.
    pub fn lz(&self, e: E) -> u16 {
        self.lzd(e, 24)
    }
    fn lzd(&self, e: E, d: u32) -> u16 {
        let n = self.n(e);
        if n.op == Op::Const {
            return if n.k == 0 {
                n.w
            } else {
                (n.k.leading_zeros() - (128 - n.w as u32)) as u16
            };
        }
        if d == 0 {
            return 0;
        }
        let d = d - 1;
        match n.op {
            Op::Concat => {
                let h = self.lzd(n.a, d);
                if h == self.w(n.a) {
                    h + self.lzd(n.b, d)
                } else {
                    h
                }
            }
            Op::And => self.lzd(n.a, d.min(6)).max(self.lzd(n.b, d.min(6))),
            Op::Or | Op::Xor => {
                let x = self.lzd(n.b, d.min(6));
                if x == 0 {
                    0
                } else {
                    self.lzd(n.a, d).min(x)
                }
            }
            Op::Ite => {
                let x = self.lzd(n.b, d.min(6));
                if x == 0 {
                    0
                } else {
                    self.lzd(n.c, d).min(x)
                }
            }
            Op::LShr => self.lzd(n.a, d),
            Op::UDiv if self.cval(n.b).is_some_and(|k| k != 0) => self.lzd(n.a, d),
            Op::URem if self.cval(n.b).is_some_and(|k| k != 0) => {
                let k = self.cval(n.b).unwrap() - 1;
                if k == 0 {
                    n.w
                } else {
                    ((k.leading_zeros() - (128 - n.w as u32)) as u16).max(self.lzd(n.a, d))
                }
            }
            Op::Mul => {
                let (x, y) = (self.lzd(n.a, d.min(6)), self.lzd(n.b, d.min(6)));
                (x + y).saturating_sub(n.w)
            }
            Op::Add => {
                let x = self.lzd(n.b, d.min(6));
                if x == 0 {
                    0
                } else {
                    self.lzd(n.a, d).min(x).saturating_sub(1)
                }
            }
            _ => 0,
        }
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let e = self.bin_(op, a, b);
        let h = self.height[e as usize];
        if matches!(op, Op::Add | Op::Sub) && h >= 24 && h % 4 == 0 {
            return self.flatten(e);
        }
        e
    }

    /// A sum of few terms that nests deeply (values that add up over many steps), nested no more
    /// than its terms.
    fn flatten(&mut self, e: E) -> E {
        if let Some(x) = self.flat.get(&e) {
            return *x;
        }
        let w = self.w(e);
        let mut l = Linear {
            w,
            t: BTreeMap::new(),
            c: 0,
            todo: BTreeMap::new(),
            steps: 0,
            facts: &|_| false,
            open: None,
        };
        self.linear(e, 1, &mut l);
        self.linear_run(&mut l);
        let mut x = e;
        l.t.retain(|_, k| *k != 0);
        if l.t.len() <= 32 {
            let mut sum = self.c(w, 0);
            for (e, k) in l.t {
                let k = self.c(w, k);
                let f = self.bin_(Op::Mul, e, k);
                sum = self.bin_(Op::Add, sum, f);
            }
            let c = self.c(w, l.c);
            sum = self.bin_(Op::Add, sum, c);
            if self.height[sum as usize] + 8 <= self.height[e as usize] {
                x = sum;
            }
        }
        self.flat.insert(e, x);
        x
    }

    fn bin_(&mut self, op: Op, a: E, b: E) -> E {
        let (mut a, mut b) = (a, b);
        let (mut an, mut bn) = (self.n(a), self.n(b));
        debug_assert_eq!(an.w, bn.w, "{:?}", op);
        let w = an.w;
        if an.op == Op::Const && bn.op == Op::Const {
            let v = apply(op, w, w, an.k, bn.k, 0, 0);
            return self.c(w, v);
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        if comm && (an.op == Op::Const || (bn.op != Op::Const && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut an, &mut bn);
        }
        let bc = if bn.op == Op::Const { Some(bn.k) } else { None };
        match op {
            Op::Add => {
                if let Some(k) = bc {
                    if k == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if an.op == Op::Add {
                        if let Some(k1) = self.cval(an.b) {
                            let c = self.c(w, k.wrapping_add(k1));
                            return self.bin(Op::Add, an.a, c);
                        }
                    }
                    // disjoint: low bits of k below concat split
                    if an.op == Op::Concat {
                        let lw = self.w(an.b);
                        if k & mask(lw) == 0 {
                            let hc = self.c(w - lw, k >> lw);
                            let h = self.bin(Op::Add, an.a, hc);
                            return self.concat(h, an.b);
                        }
                    }
                    if an.op == Op::Ite && self.cval(an.b).is_some() && self.cval(an.c).is_some() {
                        let p = self.bin(op, an.b, b);
                        let q = self.bin(op, an.c, b);
                        return self.ite(an.a, p, q);
                    }
                } else {
                    // (x + c) + y -> (x + y) + c
                    if an.op == Op::Add {
                        if let Some(_) = self.cval(an.b) {
                            let s = self.bin(Op::Add, an.a, b);
                            return self.bin(Op::Add, s, an.b);
                        }
                    }
                    if bn.op == Op::Add {
                        if let Some(_) = self.cval(bn.b) {
                            let s = self.bin(Op::Add, a, bn.a);
                            return self.bin(Op::Add, s, bn.b);
                        }
                    }
                    // x + (y - x) -> y
                    if bn.op == Op::Sub && bn.b == a {
                        return bn.a;
                    }
                    if an.op == Op::Sub && an.b == b {
                        return an.a;
                    }
                    if let Some(r) = self.disjoint_or(a, b) {
                        return r;
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.c(w, 0);
                }
                if let Some(k) = bc {
                    let c = self.c(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, c);
                }
                if an.op == Op::Add && an.a == b {
                    return an.b;
                }
                if an.op == Op::Add && an.b == b {
                    return an.a;
                }
                // (x + c) - y -> (x - y) + c ; x - (y + c) -> (x - y) - c
                if an.op == Op::Add {
                    if let Some(_) = self.cval(an.b) {
                        let s = self.bin(Op::Sub, an.a, b);
                        return self.bin(Op::Add, s, an.b);
                    }
                }
                if bn.op == Op::Add {
                    if let Some(k) = self.cval(bn.b) {
                        let s = self.bin(Op::Sub, a, bn.a);
                        let nk = self.c(w, k.wrapping_neg());
                        return self.bin(Op::Add, s, nk);
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Mul => {
                if let Some(k) = bc {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let c = self.c(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, c);
                    }
                    if an.op == Op::Ite && self.cval(an.b).is_some() && self.cval(an.c).is_some() {
                        let p = self.bin(op, an.b, b);
                        let q = self.bin(op, an.c, b);
                        return self.ite(an.a, p, q);
                    }
                }
                if w == 1 {
                    return self.bin(Op::And, a, b);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = bc {
                    if k == 0 {
                        return b;
                    }
                    if k == mask(w) {
                        return a;
                    }
                    if an.op == Op::And {
                        if let Some(k1) = self.cval(an.b) {
                            let c = self.c(w, k & k1);
                            return self.bin(Op::And, an.a, c);
                        }
                    }
                    // contiguous mask -> concat(0, extract, 0)
                    let lo = k.trailing_zeros() as u16;
                    let width = (k >> lo).trailing_ones() as u16;
                    if k >> lo == mask(width) {
                        let x = self.extract(a, lo, width);
                        let x = self.zext(x, w - lo);
                        if lo == 0 {
                            return x;
                        }
                        let z = self.c(lo, 0);
                        return self.concat(x, z);
                    }
                    if an.op == Op::Concat {
                        return self.split_bitwise(op, a, b);
                    }
                    if an.op == Op::Ite && (self.cval(an.b).is_some() || self.cval(an.c).is_some())
                    {
                        let p = self.bin(op, an.b, b);
                        let q = self.bin(op, an.c, b);
                        return self.ite(an.a, p, q);
                    }
                } else {
                    if an.op == Op::Not && an.a == b || bn.op == Op::Not && bn.a == a {
                        return self.c(w, 0);
                    }
                    if w == 1 {
                        // absorption with nested ands
                        if bn.op == Op::And && (bn.a == a || bn.b == a) {
                            return b;
                        }
                        if an.op == Op::And && (an.a == b || an.b == b) {
                            return a;
                        }
                    }
                    if an.op == Op::Concat
                        && (self.cval(an.a).is_some() || self.cval(an.b).is_some())
                    {
                        return self.split_bitwise(op, a, b);
                    }
                    if bn.op == Op::Concat
                        && (self.cval(bn.a).is_some() || self.cval(bn.b).is_some())
                    {
                        return self.split_bitwise(op, b, a);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = bc {
                    if k == 0 {
                        return a;
                    }
                    if k == mask(w) {
                        return b;
                    }
                    if an.op == Op::Concat {
                        return self.split_bitwise(op, a, b);
                    }
                    if an.op == Op::Ite && (self.cval(an.b).is_some() || self.cval(an.c).is_some())
                    {
                        let p = self.bin(op, an.b, b);
                        let q = self.bin(op, an.c, b);
                        return self.ite(an.a, p, q);
                    }
                } else {
                    if an.op == Op::Not && an.a == b || bn.op == Op::Not && bn.a == a {
                        return self.c(w, mask(w));
                    }
                    if w == 1 {
                        if bn.op == Op::Or && (bn.a == a || bn.b == a) {
                            return b;
                        }
                        if an.op == Op::Or && (an.a == b || an.b == b) {
                            return a;
                        }
                    }
                    if let Some(r) = self.disjoint_or(a, b) {
                        return r;
                    }
                    if an.op == Op::Concat
                        && (self.cval(an.a).is_some() || self.cval(an.b).is_some())
                    {
                        return self.split_bitwise(op, a, b);
                    }
                    if bn.op == Op::Concat
                        && (self.cval(bn.a).is_some() || self.cval(bn.b).is_some())
                    {
                        return self.split_bitwise(op, b, a);
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.c(w, 0);
                }
                if let Some(k) = bc {
                    if k == 0 {
                        return a;
                    }
                    if k == mask(w) {
                        return self.not(a);
                    }
                    if an.op == Op::Xor {
                        if let Some(k1) = self.cval(an.b) {
                            let c = self.c(w, k ^ k1);
                            return self.bin(Op::Xor, an.a, c);
                        }
                    }
                    if an.op == Op::Concat {
                        return self.split_bitwise(op, a, b);
                    }
                } else if let Some(r) = self.disjoint_or(a, b) {
                    return r;
                }
            }
            Op::Shl => {
                if let Some(k) = bc {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(w, 0);
                    }
                    let k = k as u16;
                    let x = self.extract(a, 0, w - k);
                    let z = self.c(k, 0);
                    return self.concat(x, z);
                }
                if an.op == Op::Const && an.k == 0 {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(k) = bc {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(w, 0);
                    }
                    let k = k as u16;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
                if an.op == Op::Const && an.k == 0 {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(k) = bc {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u16;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
                if an.op == Op::Const && an.k == 0 {
                    return a;
                }
            }
            Op::UDiv => {
                if let Some(k) = bc {
                    if k == 1 {
                        return a;
                    }
                    if k != 0 && k.is_power_of_two() {
                        let c = self.c(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, c);
                    }
                    if k != 0 {
                        // narrow zero-extended dividends
                        let lz = self.lz(a);
                        let kw = (128 - k.leading_zeros()) as u16;
                        let nw = (w - lz).max(kw);
                        if nw < w {
                            let x = self.extract(a, 0, nw);
                            let kc = self.c(nw, k);
                            let q = self.bin(Op::UDiv, x, kc);
                            return self.zext(q, w);
                        }
                    }
                }
            }
            Op::URem => {
                if let Some(k) = bc {
                    if k == 1 {
                        return self.c(w, 0);
                    }
                    if k != 0 && k.is_power_of_two() {
                        let t = k.trailing_zeros() as u16;
                        let x = self.extract(a, 0, t);
                        return self.zext(x, w);
                    }
                    if k != 0 {
                        let lz = self.lz(a);
                        let kw = (128 - k.leading_zeros()) as u16;
                        let nw = (w - lz).max(kw);
                        if nw < w {
                            let x = self.extract(a, 0, nw);
                            let kc = self.c(nw, k);
                            let q = self.bin(Op::URem, x, kc);
                            return self.zext(q, w);
                        }
                    }
                }
            }
            _ => {}
        }
        self.mk(op, w, a, b, NONE, 0)
    }

    /// a | b (= a + b = a ^ b) when one is x ++ 0..0 and the other fits in the low zeros.
    fn disjoint_or(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (ta, tb) = (self.tz(a), self.tz(b));
        let (la, lb) = (self.lz(a), self.lz(b));
        let (hi, lo, t) = if ta > 0 && w - lb <= ta {
            (a, b, ta)
        } else if tb > 0 && w - la <= tb {
            (b, a, tb)
        } else {
            return None;
        };
        if t >= w {
            return None;
        }
        let h = self.extract(hi, t, w - t);
        let l = self.extract(lo, 0, t);
        Some(self.concat(h, l))
    }

    /// bitwise op on a Concat `a` and any `b`, split at a's boundary.
    fn split_bitwise(&mut self, op: Op, a: E, b: E) -> E {
        let an = self.n(a);
        let lw = self.w(an.b);
        let w = an.w;
        let bh = self.extract(b, lw, w - lw);
        let bl = self.extract(b, 0, lw);
        let h = self.bin(op, an.a, bh);
        let l = self.bin(op, an.b, bl);
        self.concat(h, l)
    }

    /// Bounds of the finite value of the floating-point `e`, whatever the variables; none if it may
    /// be infinite or not a number.
    pub fn frange(&mut self, e: E) -> Option<(f64, f64)> {
        if let Some(r) = self.fr.get(&e) {
            return *r;
        }
        let n = self.n(e);
        let r = self.frange_of(n);
        // rounding to nearest of any operation in f32 or f64
        let r = r.and_then(|(lo, hi)| {
            let (lo, hi) = if n.op == Op::Const || n.op == Op::FExt || n.op == Op::Ite {
                (lo, hi)
            } else {
                let r = if n.w == 32 { 1e-6 } else { 1e-14 };
                (lo - lo.abs() * r - 1e-40, hi + hi.abs() * r + 1e-40)
            };
            let max = if n.w == 32 { 3e38 } else { 1e308 };
            (lo > -max && hi < max).then_some((lo, hi))
        });
        self.fr.insert(e, r);
        r
    }

    fn frange_of(&mut self, n: Node) -> Option<(f64, f64)> {
        let hull = |v: [f64; 4]| {
            (
                v.iter().copied().fold(f64::INFINITY, f64::min),
                v.iter().copied().fold(f64::NEG_INFINITY, f64::max),
            )
        };
        match n.op {
            Op::Const => {
                let v = if n.w == 32 {
                    f32::from_bits(n.k as u32) as f64
                } else if n.w == 64 {
                    f64::from_bits(n.k as u64)
                } else {
                    return None;
                };
                v.is_finite().then_some((v, v))
            }
            Op::Ite => {
                let (a, b) = (self.frange(n.b)?, self.frange(n.c)?);
                Some((a.0.min(b.0), a.1.max(b.1)))
            }
            Op::SiToF => {
                let (lo, hi) = self.srange(n.a);
                Some((lo as f64, hi as f64))
            }
            Op::UiToF => {
                let w = self.w(n.a);
                let hi = mask(w - self.lz(n.a).min(w));
                Some((0.0, hi as f64))
            }
            Op::FExt | Op::FToF32 => self.frange(n.a),
            Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRint | Op::FRound => {
                let (lo, hi) = self.frange(n.a)?;
                Some((lo.floor(), hi.ceil()))
            }
            Op::Xor if n.w == 32 || n.w == 64 => {
                let sign = 1u128 << (n.w - 1);
                let x = if self.cval(n.b) == Some(sign) {
                    n.a
                } else if self.cval(n.a) == Some(sign) {
                    n.b
                } else {
                    return None;
                };
                let (lo, hi) = self.frange(x)?;
                Some((-hi, -lo))
            }
            Op::FAdd => {
                let (a, b) = (self.frange(n.a)?, self.frange(n.b)?);
                Some((a.0 + b.0, a.1 + b.1))
            }
            Op::FMul => {
                let (a, b) = (self.frange(n.a)?, self.frange(n.b)?);
                Some(hull([a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1]))
            }
            Op::FDiv => {
                let (a, b) = (self.frange(n.a)?, self.frange(n.b)?);
                if b.0 <= 1e-30 && b.1 >= -1e-30 {
                    return None;
                }
                Some(hull([a.0 / b.0, a.0 / b.1, a.1 / b.0, a.1 / b.1]))
            }
            _ => None,
        }
    }

    /// Generic n-ary constructor for the remaining (float, math) operations.
    pub fn fop(&mut self, op: Op, w: u16, a: E, b: E, k: u128) -> E {
        let (mut a, mut b) = (a, b);
        let an = self.n(a);
        let bk = if b == NONE { Some(0) } else { self.cval(b) };
        if an.op == Op::Const {
            if let Some(bk) = bk {
                let v = apply(op, w, an.w, an.k, bk, 0, k);
                return self.c(w, v);
            }
        }
        // arithmetic on NaN is NaN (the payload of which nothing depends on)
        if matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv) {
            let nan = |x: u128| {
                if w == 32 {
                    f32::from_bits(x as u32).is_nan()
                } else {
                    f64::from_bits(x as u64).is_nan()
                }
            };
            if an.op == Op::Const && nan(an.k) {
                return a;
            }
            if bk.is_some_and(nan) {
                return b;
            }
        }
        // a - b is a + -b, and division by a power of two is multiplication by its inverse
        if op == Op::FSub {
            let sign = self.c(w, 1 << (w - 1));
            let nb = self.bin(Op::Xor, b, sign);
            return self.fop(Op::FAdd, w, a, nb, k);
        }
        if let (Op::FDiv, Some(x)) = (op, bk) {
            let m = if w == 32 { 23 } else { 52 };
            let (exp, max) = (x >> m & mask(w - 1 - m), mask(w - 1 - m));
            if x & mask(m) == 0 && exp > 0 && exp < max - 1 {
                let inv = self.c(w, x & 1 << (w - 1) | (max - 1 - exp) << m);
                return self.fop(Op::FMul, w, a, inv, k);
            }
        }
        if op == Op::FMul {
            let one = if w == 32 {
                1f32.to_bits() as u128
            } else {
                1f64.to_bits() as u128
            };
            if bk == Some(one) {
                return a;
            }
            if an.op == Op::Const && an.k == one {
                return b;
            }
        }
        if op == Op::FUno && self.frange(a).is_some() {
            return self.c(1, 0);
        }
        if matches!(op, Op::FEq | Op::FLt | Op::FLe) {
            if let (Some(x), Some(y)) = (self.frange(a), self.frange(b)) {
                if x.1 < y.0 {
                    return self.c(1, (op != Op::FEq) as u128);
                }
                if x.0 > y.1 {
                    return self.c(1, 0);
                }
                // numbers that are not less than another are greater or equal
                if op == Op::FLe {
                    let r = self.fop(Op::FLt, 1, b, a, 0);
                    return self.not(r);
                }
            }
        }
        if matches!(op, Op::FAdd | Op::FMul | Op::FEq) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let an = self.n(a);
        // distribute over an ite of constants so table look-ups stay concrete
        if matches!(op, Op::Powi | Op::Math | Op::SiToF | Op::UiToF) {
            if b == NONE {
                if an.op == Op::Ite && self.cval(an.b).is_some() {
                    let p = self.fop(op, w, an.b, NONE, k);
                    let q = self.fop(op, w, an.c, NONE, k);
                    return self.ite(an.a, p, q);
                }
            } else if an.op == Op::Const {
                let bn = self.n(b);
                if bn.op == Op::Ite && self.cval(bn.b).is_some() {
                    let p = self.fop(op, w, a, bn.b, k);
                    let q = self.fop(op, w, a, bn.c, k);
                    return self.ite(bn.a, p, q);
                }
            }
        }
        self.mk(op, w, a, b, NONE, k)
    }

    /// Bounds of `e` read as a signed number (widths up to 64), whatever the variables.
    pub fn srange(&mut self, e: E) -> (i128, i128) {
        if let Some(Some(r)) = self.sr.get(e as usize) {
            return *r;
        }
        let n = self.n(e);
        if n.w > 64 {
            return (i128::MIN / 4, i128::MAX / 4);
        }
        let full = (-(1i128 << (n.w - 1)), (1i128 << (n.w - 1)) - 1);
        let fit = |lo: i128, hi: i128| {
            if lo >= full.0 && hi <= full.1 {
                (lo, hi)
            } else {
                full
            }
        };
        let r = match n.op {
            Op::Const => {
                let v = sx(n.k, n.w);
                (v, v)
            }
            Op::Concat => {
                let wl = self.w(n.b);
                let low = self.zext(n.b, wl + 1);
                let (h, l) = (
                    self.srange(n.a),
                    if self.n(low).op == Op::Concat {
                        (0, mask(wl - self.lz(n.b)) as i128)
                    } else {
                        self.srange(low)
                    },
                );
                ((h.0 << wl) + l.0, (h.1 << wl) + l.1)
            }
            Op::SExt => self.srange(n.a),
            Op::Extract if n.k == 0 => {
                let (lo, hi) = self.srange(n.a);
                fit(lo, hi)
            }
            Op::Add => {
                let (a, b) = (self.srange(n.a), self.srange(n.b));
                fit(a.0 + b.0, a.1 + b.1)
            }
            Op::Sub => {
                let (a, b) = (self.srange(n.a), self.srange(n.b));
                fit(a.0 - b.1, a.1 - b.0)
            }
            Op::Mul => {
                let (a, b) = (self.srange(n.a), self.srange(n.b));
                let m = |x: i128, y: i128| x.checked_mul(y).unwrap_or(i128::MAX);
                let v = [m(a.0, b.0), m(a.0, b.1), m(a.1, b.0), m(a.1, b.1)];
                if v.contains(&i128::MAX) {
                    full
                } else {
                    fit(*v.iter().min().unwrap(), *v.iter().max().unwrap())
                }
            }
            Op::Ite => {
                let (a, b) = (self.srange(n.b), self.srange(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            _ => full,
        };
        if self.sr.len() <= e as usize {
            let m = self.nodes.len().max(e as usize + 1);
            self.sr.resize(m + m / 2, None);
        }
        self.sr[e as usize] = Some(r);
        r
    }

    /// Adds k * e to the sum `t` of terms with coefficients modulo 2^w; `e` may be narrower than w
    /// if k is a multiple of the missing power of two.
    /// Adds `k * e` to the sum: terms wait until everything that may contain them is taken apart
    /// (operands come before what is made of them), so that shared ones are visited once.
    fn linear(&mut self, e: E, k: u128, t: &mut Linear) {
        t.wait(e, false, k)
    }

    fn linear_zext(&mut self, e: E, k: u128, t: &mut Linear) {
        t.wait(e, true, k)
    }

    fn linear_run(&mut self, t: &mut Linear) {
        while let Some(((e, zext), k)) = t.todo.pop_last() {
            if zext {
                self.linear_zext_step(e, k, t)
            } else {
                self.linear_step(e, k, t)
            }
        }
    }

    fn linear_step(&mut self, e: E, k: u128, t: &mut Linear) {
        let n = self.n(e);
        let m = mask(t.w);
        t.steps += 1;
        if k & m == 0 {
            return;
        }
        if t.steps < 20000 {
            match n.op {
                Op::Const => return t.c = t.c.wrapping_add(n.k.wrapping_mul(k)) & m,
                Op::Add | Op::Sub => {
                    self.linear(n.a, k, t);
                    return self.linear(
                        n.b,
                        if n.op == Op::Sub {
                            0u128.wrapping_sub(k) & m
                        } else {
                            k
                        },
                        t,
                    );
                }
                Op::Mul if self.cval(n.a).is_some() || self.cval(n.b).is_some() => {
                    let (f, x) = match self.cval(n.a) {
                        Some(f) => (f, n.b),
                        None => (self.cval(n.b).unwrap(), n.a),
                    };
                    return self.linear(x, f.wrapping_mul(k) & m, t);
                }
                Op::Shl if self.cval(n.b).is_some_and(|s| s < t.w as u128) => {
                    return self.linear(n.a, (k << self.cval(n.b).unwrap()) & m, t);
                }
                Op::Concat => {
                    let wl = self.w(n.b);
                    self.linear(n.a, (k << wl) & m, t);
                    return self.linear_zext(n.b, k, t);
                }
                Op::SExt => {
                    // (an ite with a known condition, a sum that does not wrap)
                    let y = self.n(n.a);
                    match y.op {
                        Op::Ite if t.known(self, y.a).is_some() => {
                            let x = if t.known(self, y.a) == Some(true) {
                                y.b
                            } else {
                                y.c
                            };
                            let x = self.sext(x, n.w);
                            return self.linear(x, k, t);
                        }
                        Op::Ite => t.open = Some(y.a),
                        Op::Add | Op::Sub => {
                            let (a, b) = (self.srange(y.a), self.srange(y.b));
                            let (lo, hi) = if y.op == Op::Add {
                                (a.0 + b.0, a.1 + b.1)
                            } else {
                                (a.0 - b.1, a.1 - b.0)
                            };
                            let lim = 1i128 << (y.w.min(64) - 1);
                            if y.w <= 64 && lo >= -lim && hi < lim {
                                let (p, q) = (self.sext(y.a, n.w), self.sext(y.b, n.w));
                                self.linear(p, k, t);
                                return self.linear(
                                    q,
                                    if y.op == Op::Sub {
                                        0u128.wrapping_sub(k) & m
                                    } else {
                                        k
                                    },
                                    t,
                                );
                            }
                        }
                        _ => {}
                    }
                    let sign = self.extract(n.a, y.w - 1, 1);
                    if t.known(self, sign) == Some(false) {
                        return self.linear_zext(n.a, k, t);
                    }
                    if n.w < t.w {
                        let x = self.sext(n.a, t.w);
                        return t.add(x, k);
                    }
                }
                Op::Ite if t.known(self, n.a).is_some() => {
                    let x = if t.known(self, n.a) == Some(true) {
                        n.b
                    } else {
                        n.c
                    };
                    return self.linear(x, k, t);
                }
                Op::Ite => t.open = Some(n.a),
                Op::Extract if n.k == 0 && self.w(n.a) <= t.w => return self.linear(n.a, k, t),
                Op::Extract if self.wider(e, k, t.w) != e => {
                    let x = self.wider(e, k, t.w);
                    return self.linear(x, k, t);
                }
                _ => {}
            }
        }
        let x = self.zext(e, t.w);
        t.add(x, k);
    }

    /// With factor `k`, the bits above those extracted do not count: those of all of the operand.
    fn wider(&mut self, e: E, k: u128, w: u16) -> E {
        let n = self.n(e);
        let wide = (self.w(n.a) - n.k as u16).min(w);
        if n.k == 0 || wide <= n.w || n.w + (k.trailing_zeros() as u16) < w {
            return e;
        }
        self.extract(n.a, n.k as u16, wide)
    }

    fn linear_zext_step(&mut self, e: E, k: u128, t: &mut Linear) {
        let n = self.n(e);
        // (with factor k, what does not fit the operand does not count either)
        if matches!(n.op, Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::Extract)
            && (n.op != Op::Extract || n.k == 0)
            && n.w + (k.trailing_zeros() as u16) >= t.w
        {
            return self.linear(e, k, t);
        }
        match n.op {
            Op::Concat => {
                let wl = self.w(n.b);
                self.linear_zext(n.a, k << wl & mask(t.w), t);
                self.linear_zext(n.b, k, t);
            }
            Op::Const => t.c = t.c.wrapping_add(n.k.wrapping_mul(k)) & mask(t.w),
            Op::Ite if t.known(self, n.a).is_some() => {
                let x = if t.known(self, n.a) == Some(true) {
                    n.b
                } else {
                    n.c
                };
                self.linear_zext(x, k, t);
            }
            Op::Ite => {
                t.open = Some(n.a);
                let x = self.zext(e, t.w);
                t.add(x, k)
            }
            Op::Extract if self.wider(e, k, t.w) != e => {
                let x = self.wider(e, k, t.w);
                self.linear_zext(x, k, t);
            }
            // i = 128 * bit 7 + the rest
            Op::Var if n.w > 1 && n.w <= t.w => {
                let (hi, lo) = (self.extract(e, n.w - 1, 1), self.extract(e, 0, n.w - 1));
                let (zh, zl) = (self.zext(hi, t.w), self.zext(lo, t.w));
                match t.known(self, hi) {
                    Some(true) => t.c = t.c.wrapping_add(k << (n.w - 1)) & mask(t.w),
                    Some(false) => {}
                    None => t.add(zh, k << (n.w - 1) & mask(t.w)),
                }
                t.add(zl, k);
            }
            _ => {
                let x = self.zext(e, t.w);
                t.add(x, k)
            }
        }
    }

    /// x == y where all of `facts` hold, with what both sums share left out; and a condition that
    /// was not decided by the facts.
    pub fn eq_cancel(&mut self, x: E, y: E, facts: &dyn Fn(E) -> bool) -> (E, Option<E>) {
        let w = self.w(x);
        let mut l = Linear {
            w,
            t: BTreeMap::new(),
            c: 0,
            todo: BTreeMap::new(),
            steps: 0,
            facts,
            open: None,
        };
        self.linear(x, 1, &mut l);
        self.linear(y, mask(w), &mut l);
        self.linear_run(&mut l);
        let (mut p, mut q) = (self.c(w, l.c), self.c(w, 0));
        for (e, k) in l.t {
            if k == 0 {
                continue;
            }
            let neg = 0u128.wrapping_sub(k) & mask(w);
            let (side, k) = if neg < k { (&mut q, neg) } else { (&mut p, k) };
            let kc = self.c(w, k);
            let f = self.bin(Op::Mul, e, kc);
            *side = self.bin(Op::Add, *side, f);
        }
        (self.eq(p, q), l.open)
    }

    pub fn vars_of(&mut self, e: E) -> Rc<[u32]> {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.vars[x as usize].is_some() {
                continue;
            }
            let n = self.n(x);
            if !done {
                stack.push((x, true));
                for ch in [n.a, n.b, n.c] {
                    if ch != NONE && self.vars[ch as usize].is_none() {
                        stack.push((ch, false));
                    }
                }
            } else {
                let r: Rc<[u32]> = match n.op {
                    Op::Const => Rc::from(&[][..]),
                    Op::Var => Rc::from(&[n.k as u32][..]),
                    _ => {
                        let ch: Vec<Rc<[u32]>> = [n.a, n.b, n.c]
                            .iter()
                            .filter(|&&c| c != NONE)
                            .map(|&c| self.vars[c as usize].clone().unwrap())
                            .filter(|v| !v.is_empty())
                            .collect();
                        if ch.is_empty() {
                            Rc::from(&[][..])
                        } else {
                            let big = ch.iter().max_by_key(|v| v.len()).unwrap().clone();
                            if ch
                                .iter()
                                .all(|v| v.iter().all(|x| big.binary_search(x).is_ok()))
                            {
                                big
                            } else {
                                let mut all: Vec<u32> =
                                    ch.iter().flat_map(|v| v.iter().copied()).collect();
                                all.sort_unstable();
                                all.dedup();
                                Rc::from(all)
                            }
                        }
                    }
                };
                self.vars[x as usize] = Some(r);
            }
        }
        self.vars[e as usize].clone().unwrap()
    }

    /// Evaluates under a model; `gen` must be unique per model.
    pub fn eval(&mut self, e: E, model: &[u64], gen: u64) -> u128 {
        if self.evgen[e as usize] == gen {
            return self.evval[e as usize];
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.evgen[x as usize] == gen {
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            let mut ready = true;
            if n.op == Op::Ite {
                // lazy
                if self.evgen[n.a as usize] != gen {
                    stack.push(n.a);
                    continue;
                }
                let pick = if self.evval[n.a as usize] != 0 {
                    n.b
                } else {
                    n.c
                };
                if self.evgen[pick as usize] != gen {
                    stack.push(pick);
                    continue;
                }
                let v = self.evval[pick as usize];
                self.evval[x as usize] = v;
                self.evgen[x as usize] = gen;
                stack.pop();
                continue;
            }
            for ch in [n.a, n.b, n.c] {
                if ch != NONE && self.evgen[ch as usize] != gen {
                    stack.push(ch);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |c: E| if c == NONE { 0 } else { self.evval[c as usize] };
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => *model.get(n.k as usize).unwrap_or(&0) as u128 & mask(n.w),
                Op::Concat => (g(n.a) << self.nodes[n.b as usize].w) | g(n.b),
                _ => {
                    let wa = self.nodes[n.a as usize].w;
                    apply(n.op, n.w, wa, g(n.a), g(n.b), g(n.c), n.k)
                }
            };
            self.evval[x as usize] = v;
            self.evgen[x as usize] = gen;
            stack.pop();
        }
        self.evval[e as usize]
    }

    pub fn show(&self, e: E, depth: usize) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => self.var_names[n.k as usize].0.clone(),
            _ if depth == 0 => format!("#{}", e),
            _ => {
                let mut s = format!("({:?}:{}", n.op, n.w);
                if n.op == Op::Extract {
                    s += &format!("@{}", n.k);
                }
                for c in [n.a, n.b, n.c] {
                    if c != NONE {
                        s += " ";
                        s += &self.show(c, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}
