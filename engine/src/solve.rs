//! Two procedures that run before z3 on every query:
//!  * `search` looks for a model by inverting operations towards the value a constraint needs
//!    (any model it returns has been checked by evaluating every constraint);
//!  * `refuted` propagates unsigned intervals and reports a conjunction whose intervals are
//!    contradictory as unsatisfiable (compared against z3 on random formulas by `lsx selftest`).

use crate::pool::*;

pub struct Search {
    rng: u64,
    gen: u64,
    pub hits: u64,
    pub tries: u64,
}

impl Search {
    pub fn new() -> Search {
        Search {
            rng: 0x9E3779B97F4A7C15,
            gen: 1 << 40,
            hits: 0,
            tries: 0,
        }
    }

    pub fn reseed(&mut self, k: u64) {
        self.rng ^= k << 20;
    }

    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    /// Values for all variables satisfying `conj`, starting from `base`; `fixed` may not change.
    pub fn find(
        &mut self,
        p: &mut Pool,
        conj: &[E],
        first: E,
        base: &[u64],
        fixed: &dyn Fn(u32) -> bool,
        rounds: u32,
    ) -> Option<Vec<u64>> {
        self.tries += 1;
        let mut m = base.to_vec();
        m.resize(p.var_names.len().max(m.len()), 0);
        let mut target = first;
        for r in 0..rounds {
            if r % 12 == 11 {
                // restart
                m = base.to_vec();
                m.resize(p.var_names.len().max(m.len()), 0);
                target = first;
            }
            self.gen += 1;
            let g = self.gen;
            let mut cand = m.clone();
            let mut budget = 400;
            if !self.inv(p, target, 1, &mut cand, &m, g, fixed, &mut budget) {
                // random move on one variable of the constraint
                let vs = p.vars_of(target);
                let free: Vec<u32> = vs.iter().copied().filter(|&v| !fixed(v)).collect();
                if free.is_empty() {
                    return None;
                }
                let v = free[self.rnd() as usize % free.len()];
                cand = m.clone();
                let w = p.var_names[v as usize].1;
                let x = self.value(w, m[v as usize] as u128);
                cand[v as usize] = x as u64;
            }
            m = cand;
            self.gen += 1;
            let g = self.gen;
            let mut bad = None;
            let mut nbad = 0u64;
            for &c in conj {
                if p.eval(c, &m, g) != 1 {
                    nbad += 1;
                    if self.rnd() % nbad == 0 {
                        bad = Some(c);
                    }
                }
            }
            match bad {
                None => {
                    self.hits += 1;
                    return Some(m);
                }
                Some(c) => target = c,
            }
        }
        None
    }

    fn value(&mut self, w: u16, near: u128) -> u128 {
        let r = self.rnd();
        (match r % 6 {
            0 => (r >> 8) as u128,
            1 => 0,
            2 => u128::MAX,
            3 => 1u128 << ((r >> 8) % w as u64),
            4 => (r >> 8) as u128 % 16,
            _ => near.wrapping_add((r >> 8) as u128 % 5).wrapping_sub(2),
        }) & mask(w)
    }

    /// Tries to change `out` so that e has value t. `m`/`g` is the model being changed.
    fn inv(
        &mut self,
        p: &mut Pool,
        e: E,
        t: u128,
        out: &mut Vec<u64>,
        m: &Vec<u64>,
        g: u64,
        fixed: &dyn Fn(u32) -> bool,
        budget: &mut i32,
    ) -> bool {
        *budget -= 1;
        if *budget < 0 {
            return false;
        }
        if p.eval(e, m, g) == t && p.n(e).op != Op::Var {
            return true;
        }
        let n = p.n(e);
        let w = n.w;
        macro_rules! v {
            ($x:expr) => {
                p.eval($x, m, g)
            };
        }
        macro_rules! go {
            ($x:expr, $t:expr) => {{
                let tt = $t;
                self.inv(p, $x, tt, out, m, g, fixed, budget)
            }};
        }
        let isc = |p: &Pool, x: E| p.cval(x).is_some();
        let m1 = mask(w);
        match n.op {
            Op::Const => n.k == t,
            Op::Var => {
                let i = n.k as usize;
                if fixed(i as u32) {
                    return m[i] as u128 == t;
                }
                out[i] = t as u64;
                true
            }
            Op::Not => go!(n.a, !t & m1),
            Op::Concat => {
                let wl = p.w(n.b);
                go!(n.a, t >> wl) && go!(n.b, t & mask(wl))
            }
            Op::Extract => {
                let cur = v!(n.a);
                let lo = n.k as u32;
                let nt = (cur & !(m1 << lo)) | (t << lo);
                go!(n.a, nt & mask(p.w(n.a)))
            }
            Op::SExt => {
                let wa = p.w(n.a);
                if (sx(t & mask(wa), wa) as u128) & m1 != t {
                    return false;
                }
                go!(n.a, t & mask(wa))
            }
            Op::And if w == 1 => {
                if t == 1 {
                    go!(n.a, 1) && go!(n.b, 1)
                } else if self.rnd() & 1 == 0 {
                    go!(n.a, 0) || go!(n.b, 0)
                } else {
                    go!(n.b, 0) || go!(n.a, 0)
                }
            }
            Op::Or if w == 1 => {
                if t == 0 {
                    go!(n.a, 0) && go!(n.b, 0)
                } else if self.rnd() & 1 == 0 {
                    go!(n.a, 1) || go!(n.b, 1)
                } else {
                    go!(n.b, 1) || go!(n.a, 1)
                }
            }
            Op::And => {
                let (a, b) = if isc(p, n.a) { (n.b, n.a) } else { (n.a, n.b) };
                let k = v!(b);
                if t & !k != 0 {
                    if isc(p, b) {
                        return false;
                    }
                    return go!(a, t) && go!(b, t);
                }
                let ca = v!(a);
                go!(a, (ca & !k) | t)
            }
            Op::Or => {
                let (a, b) = if isc(p, n.a) { (n.b, n.a) } else { (n.a, n.b) };
                let k = v!(b);
                if k & !t != 0 {
                    if isc(p, b) {
                        return false;
                    }
                    return go!(a, t) && go!(b, t);
                }
                let ca = v!(a);
                go!(a, (ca & k) | (t & !k))
            }
            Op::Xor | Op::Add | Op::Sub => {
                let (va, vb) = (v!(n.a), v!(n.b));
                let ta = match n.op {
                    Op::Xor => t ^ vb,
                    Op::Add => t.wrapping_sub(vb) & m1,
                    _ => t.wrapping_add(vb) & m1,
                };
                let tb = match n.op {
                    Op::Xor => t ^ va,
                    Op::Add => t.wrapping_sub(va) & m1,
                    _ => va.wrapping_sub(t) & m1,
                };
                let ka = isc(p, n.a);
                let kb = isc(p, n.b);
                if ka {
                    go!(n.b, tb)
                } else if kb {
                    go!(n.a, ta)
                } else if self.rnd() & 1 == 0 {
                    go!(n.a, ta) || go!(n.b, tb)
                } else {
                    go!(n.b, tb) || go!(n.a, ta)
                }
            }
            Op::Mul => {
                let (a, b) = if isc(p, n.a) { (n.b, n.a) } else { (n.a, n.b) };
                for (a, b) in [(a, b), (b, a)] {
                    if isc(p, a) {
                        continue;
                    }
                    let k = v!(b);
                    if k == 0 {
                        if t == 0 {
                            return true;
                        }
                        if !isc(p, b) && go!(b, 1) && go!(a, t) {
                            return true;
                        }
                        continue;
                    }
                    if t % k == 0 && go!(a, t / k) {
                        return true;
                    }
                    if k & 1 == 1 {
                        // modular inverse
                        let mut x = 1u128;
                        for _ in 0..7 {
                            x = x.wrapping_mul(2u128.wrapping_sub(k.wrapping_mul(x)));
                        }
                        if go!(a, x.wrapping_mul(t) & m1) {
                            return true;
                        }
                    }
                }
                false
            }
            Op::UDiv => {
                let k = v!(n.b);
                if k == 0 {
                    return false;
                }
                let Some(x) = t.checked_mul(k) else {
                    return false;
                };
                if x > m1 {
                    return false;
                }
                let extra = if self.rnd() & 1 == 0 { 0 } else { v!(n.a) % k };
                go!(n.a, (x + extra).min(m1))
            }
            Op::URem => {
                let k = v!(n.b);
                if k == 0 || t >= k {
                    return false;
                }
                let cur = v!(n.a);
                go!(n.a, (cur - cur % k).wrapping_add(t) & m1) || go!(n.a, t)
            }
            Op::Shl => {
                let k = v!(n.b);
                if k >= w as u128 {
                    return go!(n.b, 0) && go!(n.a, t);
                }
                if t & mask(k as u16) != 0 {
                    return false;
                }
                go!(n.a, t >> k)
            }
            Op::LShr => {
                let k = v!(n.b);
                if k >= w as u128 {
                    return go!(n.b, 0) && go!(n.a, t);
                }
                if t >> (w as u128 - k) != 0 && k > 0 {
                    return false;
                }
                go!(n.a, (t << k) & m1)
            }
            Op::AShr => {
                let k = v!(n.b);
                if k >= w as u128 {
                    return false;
                }
                go!(n.a, (t << k) & m1)
            }
            Op::Eq => {
                let (va, vb) = (v!(n.a), v!(n.b));
                let wa = p.w(n.a);
                if t == 1 {
                    if isc(p, n.b) {
                        go!(n.a, vb)
                    } else if isc(p, n.a) || self.rnd() & 1 == 0 {
                        go!(n.b, va) || go!(n.a, vb)
                    } else {
                        go!(n.a, vb) || go!(n.b, va)
                    }
                } else {
                    for _ in 0..4 {
                        let (x, o) = if isc(p, n.b) || (!isc(p, n.a) && self.rnd() & 1 == 0) {
                            (n.a, vb)
                        } else {
                            (n.b, va)
                        };
                        let nv = self.value(wa, o);
                        if nv != o && go!(x, nv) {
                            return true;
                        }
                    }
                    false
                }
            }
            Op::Ult | Op::Slt => {
                let wa = p.w(n.a);
                let flip = if n.op == Op::Slt {
                    1u128 << (wa - 1)
                } else {
                    0
                };
                let (va, vb) = (v!(n.a) ^ flip, v!(n.b) ^ flip);
                let top = mask(wa);
                for _ in 0..4 {
                    let left = isc(p, n.b) || (!isc(p, n.a) && self.rnd() & 1 == 0);
                    let r = self.rnd() % 4;
                    let rv = (self.rnd() as u128) << 64 | self.rnd() as u128;
                    let (x, nv) = match (t == 1, left) {
                        (true, true) => {
                            if vb == 0 {
                                continue;
                            }
                            (
                                n.a,
                                match r {
                                    0 => 0,
                                    1 => rv % vb,
                                    _ => vb - 1,
                                },
                            )
                        }
                        (true, false) => {
                            if va == top {
                                continue;
                            }
                            (
                                n.b,
                                match r {
                                    0 => top,
                                    1 => va + 1 + rv % (top - va),
                                    _ => va + 1,
                                },
                            )
                        }
                        (false, true) => (
                            n.a,
                            match r {
                                0 => top,
                                1 if vb < top => vb + rv % (top - vb),
                                _ => vb,
                            },
                        ),
                        (false, false) => (
                            n.b,
                            match r {
                                0 => 0,
                                1 if va > 0 => rv % va,
                                _ => va,
                            },
                        ),
                    };
                    if go!(x, nv ^ flip) {
                        return true;
                    }
                }
                false
            }
            Op::Ite => {
                let c = v!(n.a);
                let (cur, oth) = if c != 0 { (n.b, n.c) } else { (n.c, n.b) };
                if v!(oth) == t {
                    if go!(n.a, 1 - c) {
                        return true;
                    }
                    return go!(cur, t);
                }
                if go!(cur, t) {
                    return true;
                }
                go!(n.a, 1 - c) && go!(oth, t)
            }
            // floats
            Op::SiToF | Op::UiToF => {
                let wa = p.w(n.a);
                let x = if w == 32 {
                    f32::from_bits(t as u32) as f64
                } else {
                    f64::from_bits(t as u64)
                };
                let k = if n.op == Op::SiToF {
                    (x as i128) as u128
                } else {
                    x as u128
                };
                go!(n.a, k & mask(wa))
            }
            Op::FExt => go!(n.a, (f64::from_bits(t as u64) as f32).to_bits() as u128),
            Op::FToF32 => go!(n.a, (f32::from_bits(t as u32) as f64).to_bits() as u128),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let (va, vb) = (v!(n.a), v!(n.b));
                let ap = |op, a, b| apply(op, w, w, a, b, 0, 0);
                let (ta, tb) = match n.op {
                    Op::FAdd => (ap(Op::FSub, t, vb), ap(Op::FSub, t, va)),
                    Op::FSub => (ap(Op::FAdd, t, vb), ap(Op::FSub, va, t)),
                    Op::FMul => (ap(Op::FDiv, t, vb), ap(Op::FDiv, t, va)),
                    _ => (ap(Op::FMul, t, vb), ap(Op::FDiv, va, t)),
                };
                if isc(p, n.a) {
                    go!(n.b, tb)
                } else if isc(p, n.b) || self.rnd() & 1 == 0 {
                    go!(n.a, ta)
                } else {
                    go!(n.b, tb)
                }
            }
            Op::FEq | Op::FLt | Op::FLe => {
                let (va, vb) = (v!(n.a), v!(n.b));
                let wa = p.w(n.a);
                let r = self.rnd();
                let d = (r >> 8) as i128 % 3 - 1;
                let f = |x: u128| -> u128 {
                    let s = if r & 4 == 0 {
                        d
                    } else {
                        d * (1 << ((r >> 20) % 20))
                    };
                    (x as i128).wrapping_add(s) as u128 & mask(wa)
                };
                if isc(p, n.a) || (!isc(p, n.b) && r & 1 == 0) {
                    go!(n.b, f(va))
                } else {
                    go!(n.a, f(vb))
                }
            }
            Op::FToSiSat | Op::FToUiSat => {
                let wa = p.w(n.a);
                let x = if n.op == Op::FToSiSat {
                    sx(t, w) as f64
                } else {
                    t as f64
                };
                let b = if wa == 32 {
                    (x as f32).to_bits() as u128
                } else {
                    x.to_bits() as u128
                };
                go!(n.a, b)
            }
            Op::FCeil | Op::FFloor | Op::FTrunc | Op::FRint | Op::FRound => go!(n.a, t),
            _ => false,
        }
    }
}

type Iv = (u128, u128);

#[derive(Default)]
pub struct Ranges {
    fact: Vec<Iv>,
    fgen: Vec<u64>,
    memo: Vec<Iv>,
    mgen: Vec<u64>,
    gen: u64,
    round: u64,
    empty: bool,
}

impl Ranges {
    fn reset(&mut self, n: usize) {
        if self.fact.len() < n {
            let m = n + n / 2;
            self.fact.resize(m, (0, 0));
            self.fgen.resize(m, 0);
            self.memo.resize(m, (0, 0));
            self.mgen.resize(m, 0);
        }
        self.gen += 1;
        self.empty = false;
    }
    fn new_round(&mut self) {
        self.round += 1;
    }
    fn narrow(&mut self, e: E, v: Iv) -> Iv {
        let i = e as usize;
        let f = if self.fgen[i] == self.gen {
            (self.fact[i].0.max(v.0), self.fact[i].1.min(v.1))
        } else {
            v
        };
        self.fact[i] = f;
        self.fgen[i] = self.gen;
        if f.0 > f.1 {
            self.empty = true;
        }
        f
    }
}

/// True if the conjunction is unsatisfiable by unsigned interval reasoning.
pub fn refuted(p: &mut Pool, conj: &[E], facts: &mut Ranges) -> bool {
    facts.reset(p.nodes.len());
    // structural facts
    let mut rel: Vec<(E, E, bool)> = vec![]; // a < b (strict) or a <= b
    let mut ne: Vec<(E, E)> = vec![];
    for &c in conj {
        let n = p.n(c);
        let (pos, n) = if n.op == Op::Not {
            (false, p.n(n.a))
        } else {
            (true, n)
        };
        match (n.op, pos) {
            (Op::Ult, true) => rel.push((n.a, n.b, true)),
            (Op::Ult, false) => rel.push((n.b, n.a, false)),
            (Op::Eq, true) => {
                rel.push((n.a, n.b, false));
                rel.push((n.b, n.a, false));
            }
            (Op::Eq, false) => ne.push((n.a, n.b)),
            _ => {}
        }
    }
    for _ in 0..4 {
        facts.new_round();
        let mut ch = false;
        for &(a, b, strict) in &rel {
            let ia = iv(p, a, facts, 0);
            let ib = iv(p, b, facts, 0);
            let s = strict as u128;
            if strict && (ib.1 == 0) {
                return true;
            }
            let na = (ia.0, ia.1.min(ib.1.wrapping_sub(s)));
            let Some(lo) = ia.0.checked_add(s) else {
                return true;
            };
            let nb = (ib.0.max(lo), ib.1);
            if na.0 > na.1 || nb.0 > nb.1 {
                return true;
            }
            if na != ia {
                narrow(p, a, na, facts, 0);
                ch = true;
            }
            if nb != ib {
                narrow(p, b, nb, facts, 0);
                ch = true;
            }
        }
        for &(a, b) in &ne {
            let ia = iv(p, a, facts, 0);
            let ib = iv(p, b, facts, 0);
            if ia.0 == ia.1 && ia == ib {
                return true;
            }
            if ib.0 == ib.1 && ia != ib {
                let k = ib.0;
                if ia.0 == k {
                    narrow(p, a, (k + 1, ia.1), facts, 0);
                    ch = true;
                } else if ia.1 == k {
                    narrow(p, a, (ia.0, k - 1), facts, 0);
                    ch = true;
                }
            }
        }
        if facts.empty {
            return true;
        }
        if !ch {
            break;
        }
    }
    facts.new_round();
    conj.iter().any(|&c| iv(p, c, facts, 0).1 == 0)
}

fn narrow(p: &Pool, e: E, v: Iv, facts: &mut Ranges, d: u32) {
    let f = facts.narrow(e, v);
    if d > 6 || f.0 > f.1 {
        return;
    }
    let n = p.n(e);
    match n.op {
        Op::Concat => {
            let wl = p.w(n.b);
            let h = (f.0 >> wl, f.1 >> wl);
            narrow(p, n.a, h, facts, d + 1);
            if h.0 == h.1 {
                narrow(p, n.b, (f.0 & mask(wl), f.1 & mask(wl)), facts, d + 1);
            }
        }
        Op::Add => {
            // x + k without wrap-around on the interval
            let (x, k) = match (p.cval(n.a), p.cval(n.b)) {
                (Some(k), None) => (n.b, k),
                (None, Some(k)) => (n.a, k),
                _ => return,
            };
            let lo = f.0.wrapping_sub(k) & mask(n.w);
            let hi = f.1.wrapping_sub(k) & mask(n.w);
            if lo <= hi {
                narrow(p, x, (lo, hi), facts, d + 1);
            }
        }
        _ => {}
    }
}

fn iv(p: &Pool, e: E, facts: &mut Ranges, d: u32) -> Iv {
    if facts.mgen[e as usize] == facts.round {
        return facts.memo[e as usize];
    }
    let n = p.n(e);
    let m = mask(n.w);
    if n.op == Op::Const {
        return (n.k, n.k);
    }
    let full = (0, m);
    let mut r = if d > 60 {
        full
    } else {
        let mut g = |x: E| iv(p, x, facts, d + 1);
        match n.op {
            Op::Concat => {
                let wl = p.w(n.b);
                let (a, b) = (g(n.a), g(n.b));
                ((a.0 << wl) | b.0, (a.1 << wl) | b.1)
            }
            Op::Not => {
                let a = g(n.a);
                (m - a.1, m - a.0)
            }
            Op::Add => {
                let (a, b) = (g(n.a), g(n.b));
                match (a.1.checked_add(b.1), a.0.checked_add(b.0)) {
                    (Some(h), Some(l)) if h <= m => (l, h),
                    (Some(h), Some(l)) if n.w < 128 && l > m && h - (m + 1) <= m => {
                        (l - (m + 1), h - (m + 1))
                    }
                    _ => full,
                }
            }
            Op::Sub => {
                let (a, b) = (g(n.a), g(n.b));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (g(n.a), g(n.b));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= m => (a.0 * b.0, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (a, b) = (g(n.a), g(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let (a, b) = (g(n.a), g(n.b));
                if b.0 > 0 {
                    if a.1 < b.0 {
                        a
                    } else {
                        (0, a.1.min(b.1 - 1))
                    }
                } else {
                    (0, a.1)
                }
            }
            Op::And => {
                let (a, b) = (g(n.a), g(n.b));
                (0, a.1.min(b.1))
            }
            Op::Or => {
                let (a, b) = (g(n.a), g(n.b));
                let bits = 128 - (a.1 | b.1).leading_zeros();
                (a.0.max(b.0), mask(bits.max(1) as u16).min(m))
            }
            Op::Xor => {
                let (a, b) = (g(n.a), g(n.b));
                let bits = 128 - (a.1 | b.1).leading_zeros();
                (0, mask(bits.max(1) as u16).min(m))
            }
            Op::Shl => {
                let (a, b) = (g(n.a), g(n.b));
                if b.1 < n.w as u128 && a.1.leading_zeros() as u128 >= b.1 && (a.1 << b.1) <= m {
                    (a.0 << b.0, a.1 << b.1)
                } else {
                    full
                }
            }
            Op::LShr => {
                let (a, b) = (g(n.a), g(n.b));
                let sh = |x: u128, k: u128| if k >= n.w as u128 { 0 } else { x >> k };
                (sh(a.0, b.1), sh(a.1, b.0))
            }
            Op::Extract => {
                let a = g(n.a);
                let k = n.k as u32;
                if a.1 >> k <= m {
                    (a.0 >> k, a.1 >> k)
                } else {
                    full
                }
            }
            Op::SExt => {
                let wa = p.w(n.a);
                let a = g(n.a);
                if a.1 >> (wa - 1) == 0 {
                    a
                } else {
                    full
                }
            }
            Op::Ite => {
                let c = g(n.a);
                if c == (1, 1) {
                    g(n.b)
                } else if c == (0, 0) {
                    g(n.c)
                } else {
                    let (a, b) = (g(n.b), g(n.c));
                    (a.0.min(b.0), a.1.max(b.1))
                }
            }
            Op::Eq => {
                let (a, b) = (g(n.a), g(n.b));
                if a.1 < b.0 || b.1 < a.0 {
                    (0, 0)
                } else if a.0 == a.1 && a == b {
                    (1, 1)
                } else {
                    full
                }
            }
            Op::Ult => {
                let (a, b) = (g(n.a), g(n.b));
                if a.1 < b.0 {
                    (1, 1)
                } else if a.0 >= b.1 {
                    (0, 0)
                } else {
                    full
                }
            }
            Op::Slt => {
                let (a, b) = (g(n.a), g(n.b));
                let h = 1u128 << (p.w(n.a) - 1);
                if a.1 < h && b.1 < h {
                    if a.1 < b.0 {
                        (1, 1)
                    } else if a.0 >= b.1 {
                        (0, 0)
                    } else {
                        full
                    }
                } else if a.0 >= h && b.1 < h {
                    (1, 1)
                } else if a.1 < h && b.0 >= h {
                    (0, 0)
                } else {
                    full
                }
            }
            _ => full,
        }
    };
    if facts.fgen[e as usize] == facts.gen {
        let f = facts.fact[e as usize];
        r.0 = r.0.max(f.0);
        r.1 = r.1.min(f.1);
        if r.0 > r.1 {
            // contradictory: keep a well-formed interval; the caller's own checks see it
            r = (f.0, f.0.max(f.1));
        }
    }
    facts.memo[e as usize] = r;
    facts.mgen[e as usize] = facts.round;
    r
}
