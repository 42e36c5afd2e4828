//! Symbolic interpreter: depth-first exploration of every feasible path of one harness function.

#[path = "exec/merge.rs"]
mod merge;

use crate::ir::*;
use crate::pool::*;
use crate::solve;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub const HEAP_BASE: u64 = 0x1_0000_0000;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u32>, // < 256: concrete byte, otherwise expression id + 256
    pub ro: bool,
    /// size in bytes (an upper bound when `slen` is set); bytes past `data` are `fill`
    pub cap: u64,
    pub fill: u32,
    /// symbolic size, and the part of it already known to be in bounds
    pub slen: Option<E>,
    pub known: u64,
}

impl Obj {
    fn new(data: Vec<u32>, ro: bool) -> Obj {
        let cap = data.len() as u64;
        Obj {
            data,
            ro,
            cap,
            fill: 0,
            slen: None,
            known: cap,
        }
    }
    fn get(&self, s: usize, n: usize) -> std::borrow::Cow<'_, [u32]> {
        if s + n <= self.data.len() {
            std::borrow::Cow::Borrowed(&self.data[s..s + n])
        } else {
            let mut v = vec![self.fill; n];
            if s < self.data.len() {
                let k = self.data.len() - s;
                v[..k].copy_from_slice(&self.data[s..]);
            }
            std::borrow::Cow::Owned(v)
        }
    }
    fn grow(&mut self, n: usize) {
        if self.data.len() < n {
            self.data.resize(n, self.fill);
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub next: u64,
    pub pc: Vec<E>,
    pub fixed: BTreeMap<u32, E>,
    pub model: Rc<Vec<u64>>,
    pub gen: u64,
    pub inputs: Vec<E>,
    pub observed: Vec<E>,
    pub covers: BTreeSet<u32>,
    /// what the last `known` could not show: conditions on the path, and integers not shown equal
    pub differ: Rc<Vec<(Vec<E>, Option<(E, E)>)>>,
    pub steps: u64,
    pub allocd: u64,
    /// The file system: names and contents; open files and positions.
    pub files: Rc<Vec<(Vec<u8>, Vec<u32>)>>,
    pub fds: Vec<Option<(usize, usize)>>,
    pub errno: u64,
}

pub enum Stop {
    Done,
    Infeasible,
    Viol {
        kind: &'static str,
        msg: String,
        site: String,
    },
    Cut(String),
    Internal(String),
}

type R<X> = Result<X, Stop>;

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub site: String,
    pub stack: Vec<String>,
    pub input: Vec<u8>,
    pub count: u64,
}

pub struct Trace {
    pub input: Vec<u8>,
    pub observed: Vec<u64>,
    pub end: String,
}

pub struct Opts {
    pub fuel: u64,
    pub max_paths: u64,
    pub time: f64,
    pub alloc_limit: u64,
    pub max_traces: usize,
    pub verbose: bool,
    pub jobs: usize,
    /// a FIFO holding one byte per free processor slot, shared with other runs
    pub tokens: String,
    pub fixed_input: Option<Vec<u8>>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub done: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub checks_solver: u64,
    pub branch_queries: u64,
    pub interval: u64,
    pub inverted: u64,
    pub cache_hits: u64,
    pub queries: u64,
    pub unknown: u64,
    pub unknown_sites: BTreeMap<String, u64>,
    pub solver_time: f64,
    pub solver_max: f64,
    pub wall: f64,
    pub covers: BTreeMap<u32, u64>,
    pub cuts: BTreeMap<String, u64>,
    pub internal: BTreeMap<String, u64>,
    pub violations: BTreeMap<String, Violation>,
    pub traces: Vec<Trace>,
    pub fns: BTreeSet<String>,
    pub incomplete: Vec<String>,
    pub max_depth: u64,
}

#[derive(Clone)]
enum Cached {
    Unsat,
    Unknown,
    Sat(Rc<Vec<(u32, u64)>>),
}

pub struct Exec {
    pub m: Module,
    pub pool: Pool,
    pub z3: Z3,
    pub o: Opts,
    pub rep: Report,
    trace_slow: f64,
    failed: Vec<(Vec<E>, Option<(E, E)>)>,
    base: usize,
    domains: FxMap<Vec<u32>, Rc<[u64]>>,
    work: Vec<State>,
    gmem: FxMap<u64, Option<Rc<Obj>>>,
    gaddr: BTreeMap<u64, usize>,
    seen_fns: HashSet<u32>,
    cache: FxMap<Box<[E]>, Cached>,
    gen: u64,
    varcache: FxMap<(usize, u16), E>,
    fpmemo: Vec<u8>,
    /// a side of a branch is tried out: nothing may be decided
    trials: u32,
    trial_failed: bool,
    live: FxMap<u32, merge::Live>,
    kinds: FxMap<u32, Intr>,
    start: Instant,
    rng: u64,
    search: solve::Search,
    ranges: solve::Ranges,
    cur_fork_ip: u32,
}

#[derive(Clone, Debug, PartialEq)]
enum Intr {
    User,
    Named(String),
    Panic,
    Math(usize),
}

fn e2v(pool: &Pool, e: E) -> Val {
    let n = pool.n(e);
    if n.op == Op::Const && n.w <= 64 {
        Val::C(n.k as u64)
    } else {
        Val::S(e)
    }
}

fn internal<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Internal(s.into()))
}

/// Rough path of a v0-mangled name.
pub fn pretty(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' || b[i] == b'C' {
            // disambiguator s..._
            if b[i] == b's' {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_alphanumeric() {
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' {
                    i = j + 1;
                    continue;
                }
            }
            i += 1;
            continue;
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && k < 200 && j + k <= b.len() {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        if b[i] == b'B' {
            // back reference
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

impl Exec {
    pub fn new(m: Module, z3: Z3, o: Opts) -> Exec {
        let mut gaddr = BTreeMap::new();
        for (i, g) in m.globals.iter().enumerate() {
            gaddr.insert(g.addr, i);
        }
        Exec {
            m,
            pool: Pool::new(),
            z3,
            o,
            rep: Report::default(),
            work: vec![],
            gmem: Default::default(),
            gaddr,
            seen_fns: HashSet::new(),
            cache: Default::default(),
            gen: 1,
            varcache: Default::default(),
            fpmemo: vec![],
            trials: 0,
            trial_failed: false,
            live: Default::default(),
            kinds: Default::default(),
            start: Instant::now(),
            rng: 0x9E3779B97F4A7C15,
            domains: Default::default(),
            failed: vec![],
            base: 0,
            trace_slow: std::env::var("LSX_SLOW")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(0.0),
            search: solve::Search::new(),
            ranges: Default::default(),
            cur_fork_ip: 0,
        }
    }

    fn new_gen(&mut self) -> u64 {
        self.gen += 1;
        self.gen
    }

    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ---------------------------------------------------------------- values

    fn to_e(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::C(k) => self.pool.c(w, *k as u128),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }

    fn has_fp(&mut self, e: E) -> bool {
        if self.fpmemo.len() < self.pool.nodes.len() {
            let n0 = self.fpmemo.len();
            let n1 = self.pool.nodes.len();
            self.fpmemo.resize(n1, 0);
            for i in n0..n1 {
                let n = self.pool.nodes[i];
                let mut f = matches!(
                    n.op,
                    Op::FAdd
                        | Op::FSub
                        | Op::FMul
                        | Op::FDiv
                        | Op::FRem
                        | Op::FSqrt
                        | Op::FCeil
                        | Op::FFloor
                        | Op::FTrunc
                        | Op::FRint
                        | Op::FRound
                        | Op::FEq
                        | Op::FLt
                        | Op::FLe
                        | Op::FUno
                        | Op::SiToF
                        | Op::UiToF
                        | Op::FToSiSat
                        | Op::FToUiSat
                        | Op::FExt
                        | Op::FToF32
                        | Op::Powi
                        | Op::Math
                );
                for c in [n.a, n.b, n.c] {
                    if c != NONE && self.fpmemo[c as usize] != 0 {
                        f = true;
                    }
                }
                self.fpmemo[i] = f as u8;
            }
        }
        self.fpmemo[e as usize] != 0
    }

    fn eval(&mut self, st: &State, e: E) -> u128 {
        self.pool.eval(e, &st.model, st.gen)
    }

    // ---------------------------------------------------------------- solver

    fn slice(&mut self, st: &State, cond: E) -> (Vec<E>, Vec<u32>) {
        let nb = self.pool.var_names.len() / 64 + 1;
        let mut set = vec![0u64; nb];
        let mut all = vec![0u64; nb];
        let mut conj = vec![cond];
        let add = |vs: &[u32], set: &mut Vec<u64>, all: &mut Vec<u64>| {
            for &v in vs {
                all[v as usize / 64] |= 1 << (v % 64);
                if !st.fixed.contains_key(&v) {
                    set[v as usize / 64] |= 1 << (v % 64);
                }
            }
        };
        let vs = self.pool.vars_of(cond);
        add(&vs, &mut set, &mut all);
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = self.pool.vars_of(p);
                if vs
                    .iter()
                    .any(|&v| set[v as usize / 64] >> (v % 64) & 1 == 1)
                {
                    used[i] = true;
                    ch = true;
                    conj.push(p);
                    add(&vs, &mut set, &mut all);
                }
            }
            if !ch {
                break;
            }
        }
        let mut vars = vec![];
        for v in 0..self.pool.var_names.len() as u32 {
            if all[v as usize / 64] >> (v % 64) & 1 == 1 {
                if let Some(&e) = st.fixed.get(&v) {
                    conj.push(e);
                }
                vars.push(v);
            }
        }
        conj.sort_unstable();
        conj.dedup();
        (conj, vars)
    }

    /// z3 on a conjunction; when it multiplies unknowns, one case of its choices at a time.
    fn decide(&mut self, conj: &[E], vars: &[u32], depth: u32) -> Res {
        let (mut product, mut cond, mut seen) = (false, None, Default::default());
        for &c in conj {
            self.pool.choices(c, &mut seen, &mut product, &mut cond);
        }
        let Some(cond) = cond.filter(|_| product && depth < 8) else {
            return self.z3.check(&self.pool, conj, vars, false);
        };
        for k in [1u128, 0] {
            let mut map = std::collections::HashMap::new();
            let v = self.pool.c(1, k);
            map.insert(cond, v);
            let n = self.pool.n(cond);
            let fact = if k == 1 { cond } else { self.pool.not(cond) };
            if n.op == Op::Eq && k == 1 {
                if self.pool.cval(n.b).is_some() {
                    map.insert(n.a, n.b);
                } else if self.pool.cval(n.a).is_some() {
                    map.insert(n.b, n.a);
                }
            }
            // facts among the conjuncts decide choices, too
            let mut sub = vec![fact];
            let mut dead = false;
            for &c in conj {
                let c = self.pool.subst(c, &mut map);
                match self.pool.cval(c) {
                    Some(0) => dead = true,
                    Some(_) => {}
                    None if !sub.contains(&c) => sub.push(c),
                    None => {}
                }
            }
            if dead || solve::refuted(&mut self.pool, &sub, &mut self.ranges) {
                continue;
            }
            match self.decide(&sub, vars, depth + 1) {
                Res::Unsat => {}
                r => return r,
            }
        }
        Res::Unsat
    }

    /// Is pc ∧ cond satisfiable? Returns the model if so.
    fn sat(&mut self, st: &State, cond: E, site: &dyn Fn(&Exec) -> String) -> Option<Rc<Vec<u64>>> {
        match self.pool.cval(cond) {
            Some(0) => return None,
            Some(_) => return Some(st.model.clone()),
            None => {}
        }
        if self.trials > 0 {
            self.trial_failed = true;
            return None;
        }
        if self.eval(st, cond) == 1 {
            return Some(st.model.clone());
        }
        // fully determined by fixed variables: the current model is the only one
        let vs = self.pool.vars_of(cond);
        if vs.iter().all(|v| st.fixed.contains_key(v)) {
            return None;
        }
        let nc = self.pool.not(cond);
        if st.pc.contains(&nc) {
            return None;
        }
        let (conj, vars) = self.slice(st, cond);
        let key: Box<[E]> = conj.clone().into();
        if let Some(r) = self.cache.get(&key).cloned() {
            self.rep.cache_hits += 1;
            return match r {
                Cached::Sat(m) => Some(self.merge_model(st, &m)),
                Cached::Unsat => None,
                Cached::Unknown => {
                    self.rep.unknown += 1;
                    None
                }
            };
        }
        let fp = conj.iter().any(|&c| self.has_fp(c));
        for stage in 0..2 {
            let found = {
                let fixed = |v: u32| st.fixed.contains_key(&v);
                let rounds = if stage == 0 {
                    4
                } else if fp {
                    150
                } else {
                    30
                };
                self.search
                    .find(&mut self.pool, &conj, cond, &st.model, &fixed, rounds)
            };
            if let Some(m) = found {
                self.rep.inverted += 1;
                let r: Vec<(u32, u64)> = vars.iter().map(|&v| (v, m[v as usize])).collect();
                self.cache.insert(key, Cached::Sat(Rc::new(r)));
                return Some(Rc::new(m));
            }
            if stage == 0 && solve::refuted(&mut self.pool, &conj, &mut self.ranges) {
                self.rep.interval += 1;
                self.cache.insert(key, Cached::Unsat);
                return None;
            }
        }
        let t0 = std::time::Instant::now();
        let r = if fp {
            self.z3.check(&self.pool, &conj, &vars, fp)
        } else {
            self.decide(&conj, &vars, 0)
        };
        if self.trace_slow != 0.0 && t0.elapsed().as_secs_f64() > self.trace_slow {
            let s = site(self);
            eprintln!(
                "slow {:.2}s {}: {}",
                t0.elapsed().as_secs_f64(),
                s,
                self.pool.show(cond, 40)
            );
        }
        let c = match r {
            Res::Unsat => Cached::Unsat,
            Res::Unknown => Cached::Unknown,
            Res::Sat(m) => {
                // a model must satisfy the constraints under the concrete semantics
                let mut full = (*st.model).clone();
                full.resize(self.pool.var_names.len().max(full.len()), 0);
                for &(v, k) in &m {
                    full[v as usize] = k;
                }
                let g = self.new_gen();
                if conj.iter().all(|&c| self.pool.eval(c, &full, g) == 1) {
                    Cached::Sat(Rc::new(m))
                } else {
                    Cached::Unknown
                }
            }
        };
        self.cache.insert(key, c.clone());
        match c {
            Cached::Sat(m) => Some(self.merge_model(st, &m)),
            Cached::Unsat => None,
            Cached::Unknown => {
                self.rep.unknown += 1;
                let s = site(self);
                *self.rep.unknown_sites.entry(s).or_insert(0) += 1;
                None
            }
        }
    }

    /// Whether x and y are equal on this path; false when it cannot be shown by congruence of
    /// floating-point operations and decisions about integers.
    /// Whether two integers are the same sum, for every outcome of the conditions in them.
    fn equal_sums(&mut self, st: &State, x: E, y: E, extra: &mut Vec<E>) -> bool {
        let (e, open) = self
            .pool
            .eq_cancel(x, y, &|c| st.pc.contains(&c) || extra.contains(&c));
        if let Some(k) = self.pool.cval(e) {
            return k == 1;
        }
        let Some(c) = open else { return false };
        if extra.len() >= 6 {
            return false;
        }
        [c, self.pool.not(c)].into_iter().all(|c| {
            extra.push(c);
            let r = self.equal_sums(st, x, y, extra);
            extra.pop();
            r
        })
    }

    fn congruent(&mut self, st: &mut State, x: E, y: E, depth: u32) -> bool {
        if x == y {
            return true;
        }
        let (n, m) = (self.pool.n(x), self.pool.n(y));
        if depth > 40 {
            return false;
        }
        let conv = |o: Op| matches!(o, Op::SiToF | Op::UiToF);
        if conv(n.op) && n.op == m.op && n.w == m.w && self.pool.w(n.a) == self.pool.w(m.a) {
            return self.congruent(st, n.a, m.a, depth + 1);
        }
        if conv(n.op) && conv(m.op) && n.w == m.w {
            let w = self.pool.w(n.a).max(self.pool.w(m.a)) + 1;
            let mut ext = |e: E, o: Op| {
                if o == Op::SiToF {
                    self.pool.sext(e, w)
                } else {
                    self.pool.zext(e, w)
                }
            };
            let (p, q) = (ext(n.a, n.op), ext(m.a, m.op));
            return self.congruent(st, p, q, depth + 1);
        }
        // an integer converted to floating point against a constant
        for (n, m, flip) in [(&n, &m, false), (&m, &n, true)] {
            if conv(n.op) && m.op == Op::Const && n.w == m.w {
                let v = if m.w == 32 {
                    f32::from_bits(m.k as u32) as f64
                } else {
                    f64::from_bits(m.k as u64)
                };
                let w = self.pool.w(n.a).min(64) as i32;
                // integers of this width that convert to `v` exactly, and no others do
                let lim = 2f64
                    .powi(if m.w == 32 { 24 } else { 53 })
                    .min(2f64.powi(w - (n.op == Op::SiToF) as i32));
                if v.fract() == 0.0
                    && v.abs() < lim
                    && (v > 0.0 || n.op == Op::SiToF || v == 0.0)
                    && (v != 0.0 || v.is_sign_positive())
                {
                    let k = self
                        .pool
                        .c(self.pool.w(n.a), v as i64 as u128 & mask(self.pool.w(n.a)));
                    return if flip {
                        self.congruent(st, k, n.a, depth + 1)
                    } else {
                        self.congruent(st, n.a, k, depth + 1)
                    };
                }
            }
        }
        let (fx, fy) = (self.has_fp(x), self.has_fp(y));
        if !fx && !fy {
            if n.w != m.w {
                return false;
            }
            if self.equal_sums(st, x, y, &mut vec![]) {
                return true;
            }
            let (e, _) = self.pool.eq_cancel(x, y, &|c| st.pc.contains(&c));
            if let Some(k) = self.pool.cval(e) {
                if k != 1 {
                    self.fail(st, Some((x, y)));
                }
                return k == 1;
            }
            let ne = self.pool.not(e);
            let before = self.rep.unknown;
            let r = self.sat(st, ne, &|_| "congruence".into()).is_none();
            if self.rep.unknown != before {
                self.rep.unknown = before;
                self.rep.unknown_sites.remove("congruence");
                self.fail(st, Some((x, y)));
                return false;
            }
            if !r {
                self.fail(st, Some((x, y)));
            }
            return r;
        }
        // choices on floating-point conditions
        if n.op == Op::Ite && m.op == Op::Ite && n.w == m.w && self.has_fp(n.a) && self.has_fp(m.a)
        {
            let c = self.pool.nnf(n.a, false);
            for neg in [false, true] {
                let d = self.pool.nnf(m.a, neg);
                if self.congruent(st, c, d, depth + 1) {
                    let (p, q) = if neg { (m.c, m.b) } else { (m.b, m.c) };
                    return self.congruent(st, n.b, p, depth + 1)
                        && self.congruent(st, n.c, q, depth + 1);
                }
            }
        }
        // a product with one
        for (n, m, e) in [(&n, &m, y), (&m, &n, x)] {
            if n.op == Op::FMul && m.op != Op::FMul && n.w == m.w {
                let one = self.pool.c(
                    n.w,
                    if n.w == 32 {
                        1f32.to_bits() as u128
                    } else {
                        1f64.to_bits() as u128
                    },
                );
                for (p, q) in [(n.a, n.b), (n.b, n.a)] {
                    let int = matches!(self.pool.n(q).op, Op::UiToF | Op::SiToF | Op::Ite);
                    if int
                        && self.congruent(st, q, one, depth + 4)
                        && self.congruent(st, p, e, depth + 1)
                    {
                        return true;
                    }
                }
            }
        }
        // the same operation on both sides; conditions and integer operations included
        if n.op != m.op || n.w != m.w || n.k != m.k || matches!(n.op, Op::Var | Op::Const) {
            return n.w == m.w && self.congruent_cases(st, x, y, depth);
        }
        let kids = |n: &crate::pool::Node| [n.a, n.b, n.c];
        let same = |s: &mut Self, st: &mut State, a: [E; 3], b: [E; 3]| {
            (0..3).all(|i| (a[i] == NONE) == (b[i] == NONE))
                && (0..3).all(|i| a[i] == NONE || s.pool.w(a[i]) == s.pool.w(b[i]))
                && (0..3).all(|i| a[i] == NONE || s.congruent(st, a[i], b[i], depth + 1))
        };
        let (a, b) = (kids(&n), kids(&m));
        let ok = same(self, st, a, b);
        ok || matches!(
            n.op,
            Op::FAdd | Op::FMul | Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor
        ) && same(self, st, a, [b[1], b[0], b[2]])
            || self.congruent_cases(st, x, y, depth)
    }

    /// Keeps what `congruent` could not show.
    fn fail(&mut self, st: &State, ints: Option<(E, E)>) {
        let f = (st.pc[self.base.min(st.pc.len())..].to_vec(), ints);
        if self.failed.len() < 12 && !self.failed.contains(&f) {
            self.failed.push(f);
        }
    }

    /// A floating-point operation on a choice on an integer condition, as a choice of operations.
    fn lift(&mut self, x: E) -> Option<E> {
        let n = self.pool.n(x);
        if !matches!(n.op, Op::FAdd | Op::FMul | Op::FDiv) {
            return None;
        }
        for (kid, a) in [(n.a, true), (n.b, false)] {
            let k = self.pool.n(kid);
            if k.op == Op::Ite && !self.has_fp(k.a) {
                let mut f = |s: &mut Self, e: E| {
                    if a {
                        s.pool.fop(n.op, n.w, e, n.b, n.k)
                    } else {
                        s.pool.fop(n.op, n.w, n.a, e, n.k)
                    }
                };
                let (p, q) = (f(self, k.b), f(self, k.c));
                let r = self.pool.ite(k.a, p, q);
                return (self.pool.n(r).op == Op::Ite).then_some(r);
            }
        }
        None
    }

    /// Congruence where one side is a choice on an integer condition: the branch the path implies,
    /// or both.
    fn congruent_cases(&mut self, st: &mut State, x: E, y: E, depth: u32) -> bool {
        let (n, m) = (self.pool.n(x), self.pool.n(y));
        let (n, other, left) = if n.op == Op::Ite && !self.has_fp(n.a) {
            (n, y, true)
        } else if m.op == Op::Ite && !self.has_fp(m.a) {
            (m, x, false)
        } else if let Some(e) = self.lift(x) {
            (self.pool.n(e), y, true)
        } else if let Some(e) = self.lift(y) {
            (self.pool.n(e), x, false)
        } else {
            self.fail(st, None);
            return false;
        };
        if depth > 30 {
            return false;
        }
        let not = self.pool.not(n.a);
        for (c, e) in [(n.a, n.b), (not, n.c)] {
            if st.pc.contains(&not) && c == n.a || st.pc.contains(&n.a) && c == not {
                continue;
            }
            let before = self.rep.unknown;
            let model = self.sat(st, c, &|_| "congruence".into());
            if self.rep.unknown != before {
                self.rep.unknown = before;
                self.rep.unknown_sites.remove("congruence");
                return false;
            }
            let Some(model) = model else { continue };
            let saved = (st.pc.len(), std::mem::replace(&mut st.model, model));
            st.pc.push(c);
            let r = if left {
                self.congruent(st, e, other, depth + 4)
            } else {
                self.congruent(st, other, e, depth + 4)
            };
            st.pc.truncate(saved.0);
            st.model = saved.1;
            if !r {
                return false;
            }
        }
        true
    }

    fn merge_model(&mut self, st: &State, m: &[(u32, u64)]) -> Rc<Vec<u64>> {
        let mut full = (*st.model).clone();
        full.resize(self.pool.var_names.len().max(full.len()), 0);
        for &(v, k) in m {
            full[v as usize] = k;
        }
        Rc::new(full)
    }

    fn add(&mut self, st: &mut State, c: E) {
        let n = self.pool.n(c);
        match n.op {
            Op::Const => {}
            Op::And => {
                self.add(st, n.a);
                self.add(st, n.b);
            }
            _ => {
                // fix variables
                let mut fixv = None;
                if n.op == Op::Eq {
                    let a = self.pool.n(n.a);
                    if a.op == Op::Var && self.pool.cval(n.b).is_some() {
                        fixv = Some(a.k as u32);
                    }
                } else if n.op == Op::Var {
                    fixv = Some(n.k as u32);
                } else if n.op == Op::Not {
                    let a = self.pool.n(n.a);
                    if a.op == Op::Var && a.w == 1 {
                        fixv = Some(a.k as u32);
                    }
                }
                if let Some(v) = fixv {
                    st.fixed.insert(v, c);
                } else if !st.pc.contains(&c) {
                    st.pc.push(c);
                }
            }
        }
    }

    fn fork(&mut self, st: &State, cond: E, model: Rc<Vec<u64>>) -> State {
        let mut n = st.clone();
        if !Rc::ptr_eq(&n.model, &model) {
            n.model = model;
            n.gen = self.new_gen();
        }
        self.add(&mut n, cond);
        n
    }

    fn site(&self, st: &State) -> String {
        match st.frames.last() {
            Some(f) => pretty(&self.m.fns[f.func.id as usize].name),
            None => String::new(),
        }
    }

    /// Concrete value of e; other feasible values are explored by re-executing the instruction.
    fn concretize(&mut self, st: &mut State, e: E) -> R<u64> {
        if let Some(k) = self.pool.cval(e) {
            return Ok(k as u64);
        }
        let v = self.eval(st, e);
        let w = self.pool.w(e);
        let k = self.pool.c(w, v);
        let eq = self.pool.eq(e, k);
        let ne = self.pool.not(eq);
        let site = self.site(st);
        if let Some(m) = self.sat(st, ne, &|_| format!("concretize in {}", site)) {
            let mut n = self.fork(st, ne, m);
            let ip = self.cur_fork_ip;
            n.frames.last_mut().unwrap().ip = ip;
            self.work.push(n);
        }
        self.add(st, eq);
        Ok(v as u64)
    }

    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(k) => Ok(*k),
            Val::S(e) => self.concretize(st, *e),
            _ => internal("conc aggregate"),
        }
    }

    // ---------------------------------------------------------------- memory

    fn global_obj(&mut self, base: u64) -> R<Option<Rc<Obj>>> {
        if let Some(o) = self.gmem.get(&base) {
            return Ok(o.clone());
        }
        let gi = self.gaddr[&base];
        let size = self.m.globals[gi].size;
        let mut data = vec![0u32; size as usize];
        let init = self
            .m
            .global_init(gi, &mut self.pool)
            .map_err(Stop::Internal)?;
        if let Some((t, v)) = init {
            self.flatten(t, &v, 0, &mut data)?;
        }
        let o = Some(Rc::new(Obj::new(data, self.m.globals[gi].constant)));
        self.gmem.insert(base, o.clone());
        Ok(o)
    }

    fn flatten(&mut self, t: T, v: &Val, off: u64, out: &mut [u32]) -> R<()> {
        match self.m.tys[t as usize].clone() {
            Ty::Struct(_, fs) => {
                let Val::A(xs) = v else {
                    return internal("flatten struct");
                };
                for (i, f) in fs.iter().enumerate() {
                    let o = self.m.field_off(t, i);
                    self.flatten(*f, &xs[i], off + o, out)?;
                }
                Ok(())
            }
            Ty::Array(_, e) | Ty::Vec(_, e) => {
                let Val::A(xs) = v else {
                    return internal("flatten array");
                };
                if matches!(self.m.tys[t as usize], Ty::Vec(..)) && self.m.bits(e) % 8 != 0 {
                    // lanes narrower than a byte are packed
                    let w = self.m.bits(e);
                    let mut acc = self.to_e(&xs[0], w);
                    for x in xs[1..].iter() {
                        let x = self.to_e(x, w);
                        acc = self.pool.concat(x, acc);
                    }
                    let n = self.pool.w(acc);
                    let full = (n + 7) / 8 * 8;
                    let acc = if full != n {
                        self.pool.zext(acc, full)
                    } else {
                        acc
                    };
                    for i in 0..full / 8 {
                        let x = self.pool.extract(acc, 8 * i, 8);
                        out[off as usize + i as usize] = match self.pool.cval(x) {
                            Some(k) => k as u32,
                            None => x + 256,
                        };
                    }
                    return Ok(());
                }
                let s = self.m.lay(e).0;
                for (i, x) in xs.iter().enumerate() {
                    self.flatten(e, x, off + s * i as u64, out)?;
                }
                Ok(())
            }
            Ty::Void | Ty::Func | Ty::Other => internal("flatten type"),
            _ => {
                let w = self.m.bits(t);
                let nb = (w as usize + 7) / 8;
                let o = off as usize;
                match v {
                    Val::C(k) => {
                        for i in 0..nb {
                            out[o + i] = ((k >> (8 * i)) & 0xff) as u32;
                        }
                    }
                    Val::S(e) => {
                        let full = nb as u16 * 8;
                        let e = if full != w {
                            self.pool.zext(*e, full)
                        } else {
                            *e
                        };
                        for i in 0..nb {
                            let x = self.pool.extract(e, 8 * i as u16, 8);
                            out[o + i] = match self.pool.cval(x) {
                                Some(k) => k as u32,
                                None => x + 256,
                            };
                        }
                    }
                    _ => return internal("flatten scalar"),
                }
                Ok(())
            }
        }
    }

    fn unflatten(&mut self, t: T, b: &[u32]) -> R<Val> {
        match &self.m.tys[t as usize] {
            Ty::Struct(_, fs) => {
                let fs = fs.clone();
                let mut out = vec![];
                for (i, f) in fs.iter().enumerate() {
                    let o = self.m.field_off(t, i) as usize;
                    out.push(self.unflatten(*f, &b[o..])?);
                }
                Ok(Val::A(out.into()))
            }
            &Ty::Array(n, e) => {
                let s = self.m.lay(e).0 as usize;
                let mut out = vec![];
                for i in 0..n as usize {
                    out.push(self.unflatten(e, &b[s * i..])?);
                }
                Ok(Val::A(out.into()))
            }
            &Ty::Vec(n, e) => {
                let w = self.m.bits(e);
                if w % 8 != 0 {
                    let total = n as u16 * w;
                    let mut acc = None;
                    for i in 0..(total as usize + 7) / 8 {
                        let x = if b[i] < 256 {
                            self.pool.c(8, b[i] as u128)
                        } else {
                            b[i] - 256
                        };
                        acc = Some(match acc {
                            None => x,
                            Some(a) => self.pool.concat(x, a),
                        });
                    }
                    let acc = acc.unwrap();
                    let mut out = vec![];
                    for i in 0..n as u16 {
                        let x = self.pool.extract(acc, i * w, w);
                        out.push(e2v(&self.pool, x));
                    }
                    return Ok(Val::A(out.into()));
                }
                let s = w as usize / 8;
                let mut out = vec![];
                for i in 0..n as usize {
                    out.push(self.unflatten(e, &b[s * i..])?);
                }
                Ok(Val::A(out.into()))
            }
            Ty::Void | Ty::Func | Ty::Other => internal("load type"),
            _ => {
                let w = self.m.bits(t);
                let nb = (w as usize + 7) / 8;
                if nb <= 8 && b[..nb].iter().all(|&x| x < 256) {
                    let mut k = 0u64;
                    for i in (0..nb).rev() {
                        k = k << 8 | b[i] as u64;
                    }
                    if w < 64 {
                        k &= (1 << w) - 1;
                    }
                    return Ok(Val::C(k));
                }
                let mut e = NONE;
                for i in (0..nb).rev() {
                    let x = if b[i] < 256 {
                        self.pool.c(8, b[i] as u128)
                    } else {
                        b[i] - 256
                    };
                    e = if e == NONE { x } else { self.pool.concat(e, x) };
                }
                if nb as u16 * 8 != w {
                    e = self.pool.extract(e, 0, w);
                }
                Ok(e2v(&self.pool, e))
            }
        }
    }

    /// (base, object) containing addr
    fn find(&mut self, st: &State, addr: u64) -> R<Option<(u64, Rc<Obj>)>> {
        if addr >= HEAP_BASE {
            if let Some((b, o)) = st.mem.range(..=addr).next_back() {
                if addr <= b + o.cap {
                    return Ok(Some((*b, o.clone())));
                }
            }
            return Ok(None);
        }
        if addr >= GL_BASE {
            if let Some((&b, &gi)) = self.gaddr.range(..=addr).next_back() {
                if addr <= b + self.m.globals[gi].size {
                    if let Some(o) = st.mem.get(&b) {
                        return Ok(Some((b, o.clone())));
                    }
                    return Ok(self.global_obj(b)?.map(|o| (b, o)));
                }
            }
        }
        Ok(None)
    }

    fn memerr<X>(&self, what: &str, addr: u64, n: u64) -> R<X> {
        Err(Stop::Viol {
            kind: "memory",
            msg: format!("{} of {} bytes outside any live object", what, n),
            site: format!("{:#x}", addr),
        })
    }

    fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<u32>> {
        if n == 0 {
            return Ok(vec![]);
        }
        match self.find(st, addr)? {
            Some((b, o)) if addr + n <= b + o.cap => {
                let s = (addr - b) as usize;
                Ok(o.get(s, n as usize).into_owned())
            }
            _ => self.memerr("read", addr, n),
        }
    }

    fn write_bytes(&mut self, st: &mut State, addr: u64, data: &[u32]) -> R<()> {
        if data.is_empty() {
            return Ok(());
        }
        let n = data.len() as u64;
        if addr >= HEAP_BASE {
            if let Some((b, o)) = st.mem.range_mut(..=addr).next_back() {
                if addr + n <= b + o.cap {
                    let s = (addr - b) as usize;
                    if s + data.len() > (self.o.alloc_limit * 16) as usize {
                        return Err(Stop::Cut("write beyond the modelled object size".into()));
                    }
                    let o = Rc::make_mut(o);
                    o.grow(s + data.len());
                    o.data[s..s + data.len()].copy_from_slice(data);
                    return Ok(());
                }
            }
            return self.memerr("write", addr, n);
        }
        match self.find(st, addr)? {
            Some((b, o)) if addr + n <= b + o.cap => {
                if o.ro {
                    return self.memerr("write to constant", addr, n);
                }
                let s = (addr - b) as usize;
                let mut o2 = (*o).clone();
                o2.data[s..s + data.len()].copy_from_slice(data);
                st.mem.insert(b, Rc::new(o2));
                Ok(())
            }
            _ => self.memerr("write", addr, n),
        }
    }

    /// Resolves a symbolic address to one object, forking off the other possibilities.
    /// Returns base, size and the offset expression.
    fn resolve(&mut self, st: &mut State, a: E, n: u64) -> R<(u64, Rc<Obj>, E)> {
        let cur = self.eval(st, a) as u64;
        let Some((b, o)) = self.find(st, cur)? else {
            return self.memerr("symbolic access", cur, n);
        };
        let size = if o.slen.is_some() || o.cap > o.data.len() as u64 {
            // lazily sized object: one address at a time
            let k = self.concretize(st, a)?;
            self.ensure(st, k, n)?;
            let off = self.pool.c(64, (k - b) as u128);
            return Ok((b, o, off));
        } else {
            o.cap
        };
        if cur + n > b + size {
            return self.memerr("symbolic access", cur, n);
        }
        let bc = self.pool.c(64, b as u128);
        let off = self.pool.bin(Op::Sub, a, bc);
        let lim = self.pool.c(64, (size - n + 1) as u128);
        let inb = self.pool.ult(off, lim);
        let nin = self.pool.not(inb);
        let site = self.site(st);
        if let Some(m) = self.sat(st, nin, &|_| format!("address in {}", site)) {
            let mut f = self.fork(st, nin, m);
            let ip = self.cur_fork_ip;
            f.frames.last_mut().unwrap().ip = ip;
            self.work.push(f);
            self.add(st, inb);
        }
        Ok((b, o, off))
    }

    /// Possible values of an expression over a single octet, given the conditions on that octet alone.
    fn values(&mut self, st: &State, e: E) -> Option<Vec<u64>> {
        let vars = self.pool.vars_of(e);
        let [v] = vars[..] else { return None };
        let x = self.pool.var_by_index(v as usize);
        if self.pool.w(x) > 8 {
            return None;
        }
        let mut key = vec![v];
        for &c in &st.pc {
            if self.pool.vars_of(c)[..] == [v] {
                key.push(c);
            }
        }
        let dom = match self.domains.get(&key) {
            Some(d) => d.clone(),
            None => {
                let mut m = vec![0; v as usize + 1];
                let mut d = vec![];
                for k in 0..1u64 << self.pool.w(x) {
                    m[v as usize] = k;
                    let g = self.new_gen();
                    if key[1..].iter().all(|&c| self.pool.eval(c, &m, g) != 0) {
                        d.push(k);
                    }
                }
                let d: Rc<[u64]> = Rc::from(d);
                self.domains.insert(key, d.clone());
                d
            }
        };
        let mut m = vec![0; v as usize + 1];
        let mut r = vec![];
        for &k in dom.iter() {
            m[v as usize] = k;
            let g = self.new_gen();
            let y = self.pool.eval(e, &m, g) as u64;
            if !r.contains(&y) {
                r.push(y);
            }
        }
        Some(r)
    }

    fn offsets(&mut self, off: E, size: u64, n: u64) -> Vec<u64> {
        let tz = self.pool.tz(off).min(16);
        let lz = self.pool.lz(off);
        let max = if lz == 0 {
            u64::MAX
        } else {
            (1u64 << (64 - lz)) - 1
        };
        let hi = (size - n).min(max);
        let step = 1u64 << tz;
        (0..=hi / step).map(|i| i * step).collect()
    }

    fn load(&mut self, st: &mut State, p: &Val, t: T) -> R<Val> {
        let n = self.m.lay(t).0;
        let nb = match &self.m.tys[t as usize] {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => n,
        };
        match p {
            Val::C(a) => {
                let a = *a;
                if nb > 0 && a >= HEAP_BASE {
                    // fast path
                    if let Some((b, o)) = st.mem.range(..=a).next_back() {
                        if a + nb <= b + o.data.len() as u64 && o.slen.is_none() {
                            let o = o.clone();
                            let s = (a - b) as usize;
                            return self.unflatten(t, &o.data[s..s + nb as usize]);
                        }
                    }
                    self.ensure(st, a, nb)?;
                }
                let b = self.read_bytes(st, a, nb)?;
                self.unflatten(t, &b)
            }
            Val::S(a) => {
                let (b, o, off) = self.resolve(st, *a, nb)?;
                if let Some(k) = self.pool.cval(off) {
                    return self.load(st, &Val::C(b + k as u64), t);
                }
                let mut offs = self.offsets(off, o.data.len() as u64, nb);
                if let Some(v) = self.values(st, off) {
                    offs.retain(|k| v.contains(k));
                    if let [k] = offs[..] {
                        return self.load(st, &Val::C(b + k), t);
                    }
                }
                if offs.len() > 2048
                    || !matches!(
                        self.m.tys[t as usize],
                        Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64
                    )
                {
                    let k = self.concretize(st, off)?;
                    return self.load(st, &Val::C(b + k), t);
                }
                let w = self.m.bits(t);
                // group equal values
                let mut vals: Vec<(E, Vec<u64>)> = vec![];
                let mut ix: FxMap<E, usize> = Default::default();
                for &k in &offs {
                    let v = self.unflatten(t, &o.data[k as usize..(k + nb) as usize])?;
                    let e = self.to_e(&v, w);
                    let i = *ix.entry(e).or_insert_with(|| {
                        vals.push((e, vec![]));
                        vals.len() - 1
                    });
                    vals[i].1.push(k);
                }
                // most frequent value is the default
                vals.sort_by_key(|v| v.1.len());
                let mut r = vals.pop().unwrap().0;
                for (e, ks) in vals {
                    for k in ks {
                        let kc = self.pool.c(64, k as u128);
                        let c = self.pool.eq(off, kc);
                        r = self.pool.ite(c, e, r);
                    }
                }
                Ok(e2v(&self.pool, r))
            }
            _ => internal("load ptr"),
        }
    }

    fn store(&mut self, st: &mut State, p: &Val, t: T, v: &Val) -> R<()> {
        let n = self.m.lay(t).0;
        let nb = match &self.m.tys[t as usize] {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => n,
        } as usize;
        match p {
            Val::C(a) => {
                let a = *a;
                self.ensure(st, a, nb as u64)?;
                if let (Val::C(k), true) = (v, nb <= 8) {
                    let mut buf = [0u32; 8];
                    for (i, b) in buf.iter_mut().enumerate().take(nb) {
                        *b = ((k >> (8 * i)) & 0xff) as u32;
                    }
                    return self.write_bytes(st, a, &buf[..nb]);
                }
                let mut data = vec![0u32; n as usize];
                // padding bytes keep their old contents
                if matches!(self.m.tys[t as usize], Ty::Struct(..)) {
                    data = self.read_bytes(st, a, n)?;
                }
                self.flatten(t, v, 0, &mut data)?;
                self.write_bytes(st, a, &data[..nb])
            }
            Val::S(a) => {
                let (b, o, off) = self.resolve(st, *a, nb as u64)?;
                if let Some(k) = self.pool.cval(off) {
                    return self.store(st, &Val::C(b + k as u64), t, v);
                }
                let offs = self.offsets(off, o.data.len() as u64, nb as u64);
                if offs.len() > 300 {
                    let k = self.concretize(st, off)?;
                    return self.store(st, &Val::C(b + k), t, v);
                }
                let mut data = vec![0u32; n as usize];
                self.flatten(t, v, 0, &mut data)?;
                let mut new = o.data.clone();
                for &k in &offs {
                    let kc = self.pool.c(64, k as u128);
                    let c = self.pool.eq(off, kc);
                    for i in 0..nb {
                        let old = new[k as usize + i];
                        if old == data[i] {
                            continue;
                        }
                        let oe = if old < 256 {
                            self.pool.c(8, old as u128)
                        } else {
                            old - 256
                        };
                        let ne = if data[i] < 256 {
                            self.pool.c(8, data[i] as u128)
                        } else {
                            data[i] - 256
                        };
                        let r = self.pool.ite(c, ne, oe);
                        new[k as usize + i] = match self.pool.cval(r) {
                            Some(k) => k as u32,
                            None => r + 256,
                        };
                    }
                }
                if o.ro {
                    return self.memerr("write to constant", b, nb as u64);
                }
                st.mem.insert(b, Rc::new(Obj::new(new, false)));
                Ok(())
            }
            _ => internal("store ptr"),
        }
    }

    /// For an object of symbolic size: the access must be in bounds for every size.
    fn ensure(&mut self, st: &mut State, addr: u64, n: u64) -> R<()> {
        if addr < HEAP_BASE || n == 0 {
            return Ok(());
        }
        let Some((&b, o)) = st.mem.range(..=addr).next_back() else {
            return Ok(());
        };
        let Some(sl) = o.slen else { return Ok(()) };
        let end = addr + n - b;
        if end <= o.known || end > o.cap {
            return Ok(());
        }
        let e = self.pool.c(64, end as u128);
        let bad = self.pool.ult(sl, e);
        let site = self.site(st);
        if let Some(m) = self.sat(st, bad, &|_| format!("bounds in {}", site)) {
            let f = self.fork(st, bad, m);
            self.record(
                &f,
                "memory",
                format!("access of {} bytes outside any live object", n),
                site,
            );
            let ok = self.pool.not(bad);
            let site = self.site(st);
            match self.sat(st, ok, &|_| format!("bounds in {}", site)) {
                None => return Err(Stop::Infeasible),
                Some(m) => {
                    if !Rc::ptr_eq(&m, &st.model) {
                        st.model = m;
                        st.gen = self.new_gen();
                    }
                    self.add(st, ok);
                }
            }
        }
        if let Some(o) = st.mem.get_mut(&b) {
            Rc::make_mut(o).known = end;
        }
        Ok(())
    }

    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (st.next + al - 1) / al * al;
        st.next = a + size + 32;
        let o = if size <= 4096 {
            Obj::new(vec![0; size as usize], false)
        } else {
            Obj {
                data: vec![],
                ro: false,
                cap: size,
                fill: 0,
                slen: None,
                known: size,
            }
        };
        st.mem.insert(a, Rc::new(o));
        a
    }

    fn malloc(&mut self, st: &mut State, size: &Val, align: u64) -> R<Val> {
        match size {
            Val::C(k) => {
                if *k > 1 << 44 {
                    return Err(Stop::Cut("allocation above 2^44 bytes".into()));
                }
                Ok(Val::C(self.alloc(st, *k, align)))
            }
            Val::S(e) => {
                let lim = self.pool.c(64, 1 << 44);
                let big = self.pool.ult(lim, *e);
                let site = self.site(st);
                if let Some(m) = self.sat(st, big, &|_| format!("alloc in {}", site)) {
                    *self
                        .rep
                        .cuts
                        .entry("allocation above 2^44 bytes".into())
                        .or_insert(0) += 1;
                    let _ = m;
                    let small = self.pool.not(big);
                    match self.sat(st, small, &|_| format!("alloc in {}", site)) {
                        None => return Err(Stop::Infeasible),
                        Some(m) => {
                            if !Rc::ptr_eq(&m, &st.model) {
                                st.model = m;
                                st.gen = self.new_gen();
                            }
                            self.add(st, small);
                        }
                    }
                }
                let cap = if self.pool.lz(*e) >= 20 {
                    mask(64 - self.pool.lz(*e)) as u64
                } else {
                    1 << 44
                };
                let al = align.max(16);
                let a = (st.next + al - 1) / al * al;
                st.next = a + cap + 32;
                let o = Obj {
                    data: vec![],
                    ro: false,
                    cap,
                    fill: 0,
                    slen: Some(*e),
                    known: 0,
                };
                st.mem.insert(a, Rc::new(o));
                Ok(Val::C(a))
            }
            _ => internal("malloc"),
        }
    }

    // ---------------------------------------------------------------- operations

    fn bin(&mut self, op: Op, t: T, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(_, et) = self.m.tys[t as usize] {
            let (Val::A(xs), Val::A(ys)) = (a, b) else {
                return internal("vec bin");
            };
            let (xs, ys) = (xs.clone(), ys.clone());
            let mut out = vec![];
            for i in 0..xs.len() {
                out.push(self.bin(op, et, &xs[i], &ys[i])?);
            }
            return Ok(Val::A(out.into()));
        }
        let w = self.m.bits(t);
        Ok(self.binw(op, w, a, b))
    }

    fn binw(&mut self, op: Op, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let m = if w == 64 { u64::MAX } else { (1 << w) - 1 };
                let r = match op {
                    Op::Add => x.wrapping_add(*y) & m,
                    Op::Sub => x.wrapping_sub(*y) & m,
                    Op::Mul => x.wrapping_mul(*y) & m,
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    _ => apply(op, w, w, *x as u128, *y as u128, 0, 0) as u64,
                };
                return Val::C(r);
            }
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let r = if matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem) {
            self.pool.fop(op, w, x, y, 0)
        } else {
            self.pool.bin(op, x, y)
        };
        e2v(&self.pool, r)
    }

    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext64(x, w), sext64(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let pl = &mut self.pool;
        let r = match p {
            Pred::Eq => pl.eq(x, y),
            Pred::Ne => {
                let r = pl.eq(x, y);
                pl.not(r)
            }
            Pred::Ult => pl.ult(x, y),
            Pred::Ugt => pl.ult(y, x),
            Pred::Uge => {
                let r = pl.ult(x, y);
                pl.not(r)
            }
            Pred::Ule => {
                let r = pl.ult(y, x);
                pl.not(r)
            }
            Pred::Slt => pl.slt(x, y),
            Pred::Sgt => pl.slt(y, x),
            Pred::Sge => {
                let r = pl.slt(x, y);
                pl.not(r)
            }
            Pred::Sle => {
                let r = pl.slt(y, x);
                pl.not(r)
            }
        };
        e2v(&self.pool, r)
    }

    fn fcmp(&mut self, p: &str, w: u16, a: &Val, b: &Val) -> R<Val> {
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let pl = &mut self.pool;
        let uno = |pl: &mut Pool| {
            let p = pl.fop(Op::FUno, 1, x, NONE, 0);
            let q = pl.fop(Op::FUno, 1, y, NONE, 0);
            pl.bin(Op::Or, p, q)
        };
        let r = match p {
            "oeq" => pl.fop(Op::FEq, 1, x, y, 0),
            "une" => {
                let e = pl.fop(Op::FEq, 1, x, y, 0);
                pl.not(e)
            }
            "olt" => pl.fop(Op::FLt, 1, x, y, 0),
            "ogt" => pl.fop(Op::FLt, 1, y, x, 0),
            "ole" => pl.fop(Op::FLe, 1, x, y, 0),
            "oge" => pl.fop(Op::FLe, 1, y, x, 0),
            "ult" => {
                let e = pl.fop(Op::FLe, 1, y, x, 0);
                pl.not(e)
            }
            "ugt" => {
                let e = pl.fop(Op::FLe, 1, x, y, 0);
                pl.not(e)
            }
            "ule" => {
                let e = pl.fop(Op::FLt, 1, y, x, 0);
                pl.not(e)
            }
            "uge" => {
                let e = pl.fop(Op::FLt, 1, x, y, 0);
                pl.not(e)
            }
            "uno" => uno(pl),
            "ord" => {
                let u = uno(pl);
                pl.not(u)
            }
            "one" => {
                let e = pl.fop(Op::FEq, 1, x, y, 0);
                let u = uno(pl);
                let o = pl.bin(Op::Or, e, u);
                pl.not(o)
            }
            "ueq" => {
                let e = pl.fop(Op::FEq, 1, x, y, 0);
                let u = uno(pl);
                pl.bin(Op::Or, e, u)
            }
            "true" => pl.c(1, 1),
            "false" => pl.c(1, 0),
            _ => return internal(format!("fcmp {}", p)),
        };
        Ok(e2v(&self.pool, r))
    }

    fn select(&mut self, t: T, c: &Val, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::C(k) => Ok(if *k & 1 != 0 { a.clone() } else { b.clone() }),
            Val::S(ce) => {
                let ce = *ce;
                match (a, b) {
                    (Val::A(xs), Val::A(ys)) => {
                        let (xs, ys) = (xs.clone(), ys.clone());
                        let mut out = vec![];
                        for i in 0..xs.len() {
                            let et = match self.m.tys[t as usize].clone() {
                                Ty::Struct(_, fs) => fs[i],
                                Ty::Array(_, e) | Ty::Vec(_, e) => e,
                                _ => return internal("select agg"),
                            };
                            out.push(self.select(et, c, &xs[i], &ys[i])?);
                        }
                        Ok(Val::A(out.into()))
                    }
                    _ => {
                        let w = self.m.bits(t);
                        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
                        let r = self.pool.ite(ce, x, y);
                        Ok(e2v(&self.pool, r))
                    }
                }
            }
            Val::A(cs) => {
                let (Val::A(xs), Val::A(ys)) = (a, b) else {
                    return internal("select vec");
                };
                let Ty::Vec(_, et) = self.m.tys[t as usize] else {
                    return internal("select vec");
                };
                let (cs, xs, ys) = (cs.clone(), xs.clone(), ys.clone());
                let mut out = vec![];
                for i in 0..xs.len() {
                    out.push(self.select(et, &cs[i], &xs[i], &ys[i])?);
                }
                Ok(Val::A(out.into()))
            }
        }
    }

    fn flat_bits(&mut self, t: T, v: &Val) -> R<Vec<E>> {
        // little-endian list of pieces
        match self.m.tys[t as usize].clone() {
            Ty::Vec(_, e) => {
                let Val::A(xs) = v else {
                    return internal("bitcast");
                };
                let mut out = vec![];
                for x in xs.clone().iter() {
                    out.extend(self.flat_bits(e, x)?);
                }
                Ok(out)
            }
            _ => {
                let w = self.m.bits(t);
                Ok(vec![self.to_e(v, w)])
            }
        }
    }

    fn cast(&mut self, kind: CastKind, from: T, to: T, a: &Val) -> R<Val> {
        if kind == CastKind::Bit {
            let fv = matches!(self.m.tys[from as usize], Ty::Vec(..));
            let tv = matches!(self.m.tys[to as usize], Ty::Vec(..));
            if !fv && !tv {
                return Ok(a.clone());
            }
            // via lists of bits
            let ps = self.flat_bits(from, a)?;
            let (et, n) = match self.m.tys[to as usize] {
                Ty::Vec(n, e) => (e, n),
                _ => (to, 1),
            };
            let w = self.m.bits(et);
            let mut out = vec![];
            let mut it = ps.into_iter();
            let mut cur: Option<E> = it.next();
            for _ in 0..n {
                let mut acc: Option<E> = None;
                let mut have = 0;
                while have < w {
                    let c = match cur {
                        Some(c) => c,
                        None => return internal("bitcast size"),
                    };
                    let cw = self.pool.w(c);
                    let take = (w - have).min(cw);
                    let piece = self.pool.extract(c, 0, take);
                    acc = Some(match acc {
                        None => piece,
                        Some(x) => self.pool.concat(piece, x),
                    });
                    have += take;
                    cur = if take == cw {
                        it.next()
                    } else {
                        Some(self.pool.extract(c, take, cw - take))
                    };
                }
                out.push(e2v(&self.pool, acc.unwrap()));
            }
            return Ok(if tv {
                Val::A(out.into())
            } else {
                out.pop().unwrap()
            });
        }
        if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (
            self.m.tys[from as usize].clone(),
            self.m.tys[to as usize].clone(),
        ) {
            let Val::A(xs) = a else {
                return internal("cast vec");
            };
            let mut out = vec![];
            for x in xs.clone().iter() {
                out.push(self.cast(kind, fe, te, x)?);
            }
            return Ok(Val::A(out.into()));
        }
        let (wf, wt) = (self.m.bits(from), self.m.bits(to));
        if let Val::C(k) = a {
            let k = *k;
            if wt <= 64 && wf <= 64 {
                let m = if wt == 64 { u64::MAX } else { (1u64 << wt) - 1 };
                match kind {
                    CastKind::Zext => return Ok(Val::C(k)),
                    CastKind::PtrInt | CastKind::Trunc => return Ok(Val::C(k & m)),
                    CastKind::Sext => return Ok(Val::C(sext64(k, wf) as u64 & m)),
                    _ => {}
                }
            }
        }
        let x = self.to_e(a, wf);
        let pl = &mut self.pool;
        let r = match kind {
            CastKind::Zext => pl.zext(x, wt),
            CastKind::PtrInt => {
                if wt > wf {
                    pl.zext(x, wt)
                } else {
                    pl.extract(x, 0, wt)
                }
            }
            CastKind::Sext => pl.sext(x, wt),
            CastKind::Trunc => pl.extract(x, 0, wt),
            CastKind::FpToSi => pl.fop(Op::FToSiSat, wt, x, NONE, 0),
            CastKind::FpToUi => pl.fop(Op::FToUiSat, wt, x, NONE, 0),
            CastKind::SiToFp => pl.fop(Op::SiToF, wt, x, NONE, 0),
            CastKind::UiToFp => pl.fop(Op::UiToF, wt, x, NONE, 0),
            CastKind::FpExt => pl.fop(Op::FExt, wt, x, NONE, 0),
            CastKind::FpTrunc => pl.fop(Op::FToF32, wt, x, NONE, 0),
            CastKind::Bit => unreachable!(),
        };
        Ok(e2v(&self.pool, r))
    }

    // ---------------------------------------------------------------- control

    fn goto(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.block;
        let f = fr.func.clone();
        let blk = &f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let Some((_, o)) = p.from.iter().find(|x| x.0 == from) else {
                    return internal("phi without predecessor");
                };
                let v = match o {
                    Opd::R(r) => fr.regs[*r as usize].clone(),
                    Opd::K(v) => v.clone(),
                };
                vals.push((p.dst, v));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.block = to;
        fr.ip = 0;
        Ok(())
    }

    /// Two-way branch on a symbolic condition. Returns the direction taken here.
    fn branch(
        &mut self,
        st: &mut State,
        c: E,
        other: impl FnOnce(&mut Exec, &mut State, bool) -> R<()>,
    ) -> R<bool> {
        self.rep.branch_queries += 1;
        let v = self.eval(st, c) == 1;
        let nc = self.pool.not(c);
        let (mine, alt) = if v { (c, nc) } else { (nc, c) };
        let site = self.site(st);
        if let Some(m) = self.sat(st, alt, &|_| format!("branch in {}", site)) {
            let mut n = self.fork(st, alt, m);
            other(self, &mut n, !v)?;
            self.work.push(n);
            self.add(st, mine);
        }
        Ok(v)
    }

    fn input_var(&mut self, st: &mut State, w: u16) -> E {
        let pos = st.inputs.len();
        let e = match self.varcache.get(&(pos, w)) {
            Some(&e) => e,
            None => {
                let e = self.pool.var(&format!("i{}_{}", pos, w), w);
                self.varcache.insert((pos, w), e);
                e
            }
        };
        let v = self.pool.n(e).k as usize;
        if st.model.len() <= v {
            let mut m = (*st.model).clone();
            m.resize(v + 64, 0);
            st.model = Rc::new(m);
            st.gen = self.new_gen();
        }
        if let Some(fi) = &self.o.fixed_input {
            // concrete run: take the bytes from the given stream
            let used: usize = st.inputs.iter().map(|&i| self.pool.w(i) as usize / 8).sum();
            let mut k = 0u128;
            for i in 0..(w as usize / 8) {
                k |= (*fi.get(used + i).unwrap_or(&0) as u128) << (8 * i);
            }
            let c = self.pool.c(w, k);
            st.inputs.push(c);
            return c;
        }
        st.inputs.push(e);
        e
    }

    fn input_bytes(&mut self, st: &State) -> Vec<u8> {
        let mut out = vec![];
        for &e in &st.inputs.clone() {
            let w = self.pool.w(e);
            let v = self.eval(st, e);
            for i in 0..(w / 8) {
                out.push((v >> (8 * i)) as u8);
            }
        }
        out
    }

    fn record(&mut self, st: &State, kind: &str, msg: String, site: String) {
        let stack: Vec<String> = st
            .frames
            .iter()
            .rev()
            .take(12)
            .map(|f| pretty(&self.m.fns[f.func.id as usize].name))
            .collect();
        let key = format!("{}|{}|{}", kind, msg, site);
        if let Some(v) = self.rep.violations.get_mut(&key) {
            v.count += 1;
            return;
        }
        let input = self.input_bytes(st);
        if self.o.verbose {
            eprintln!("violation {}", key);
        }
        self.rep.violations.insert(
            key,
            Violation {
                kind: kind.into(),
                msg,
                site,
                stack,
                input,
                count: 1,
            },
        );
    }

    fn str_at(&mut self, st: &State, p: u64, n: u64) -> String {
        match self.read_bytes(st, p, n.min(300)) {
            Ok(b) => b
                .iter()
                .map(|&x| if x < 256 { x as u8 as char } else { '?' })
                .collect(),
            Err(_) => "?".into(),
        }
    }

    fn u64_at(&mut self, st: &State, p: u64) -> Option<u64> {
        let b = self.read_bytes(st, p, 8).ok()?;
        let mut k = 0;
        for i in (0..8).rev() {
            if b[i] > 255 {
                return None;
            }
            k = k << 8 | b[i] as u64;
        }
        Some(k)
    }

    fn location(&mut self, st: &State, p: u64) -> String {
        let (Some(f), Some(n), Some(lc)) = (
            self.u64_at(st, p),
            self.u64_at(st, p + 8),
            self.u64_at(st, p + 16),
        ) else {
            return "?".into();
        };
        let n = n & 0xffff;
        let f = self.str_at(st, f, n);
        let f = f.trim_end_matches('\0').to_string();
        let f = match f.find("/rustlib/src/rust/") {
            Some(i) => f[i + 18..].to_string(),
            None => f,
        };
        format!("{}:{}:{}", f, lc & 0xffff_ffff, lc >> 32)
    }

    fn classify(&mut self, f: u32) -> Intr {
        if let Some(k) = self.kinds.get(&f) {
            return k.clone();
        }
        let d = &self.m.fns[f as usize];
        let n = d.name.clone();
        let k = if n.contains("9panicking9panic_fmt")
            || n.contains("9panicking18panic_nounwind_fmt")
            || n.contains("17rust_begin_unwind")
            || n.contains("18handle_alloc_error")
            || n.contains("9panicking15panic_with_hook")
            || n.contains("10rust_panic")
        {
            Intr::Panic
        } else if d.lines.is_some()
            && !matches!(
                n.as_str(),
                "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" | "malloc" | "free"
            )
        {
            Intr::User
        } else {
            let base = n
                .strip_prefix("llvm.")
                .map(|x| x.split('.').next().unwrap().to_string())
                .unwrap_or(n.clone());
            let m = MATH_FNS
                .iter()
                .position(|&x| x == base || base == format!("{}f", x));
            match m {
                Some(i) if !n.starts_with("llvm.") || d.lines.is_none() => Intr::Math(i),
                _ => Intr::Named(n),
            }
        };
        self.kinds.insert(f, k.clone());
        k
    }

    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }

    fn push_frame(
        &mut self,
        st: &mut State,
        f: u32,
        args: Vec<Val>,
        dst: Option<u32>,
        normal: Option<u32>,
    ) -> R<()> {
        let func = self.m.func(f, &mut self.pool).map_err(Stop::Internal)?;
        if self.seen_fns.insert(f) {
            let n = pretty(&self.m.fns[f as usize].name);
            self.rep.fns.insert(n);
        }
        if st.frames.len() > 400 {
            return Err(Stop::Viol {
                kind: "recursion",
                msg: "call depth above 400".into(),
                site: self.site(st),
            });
        }
        let mut regs = vec![Val::C(0); func.nregs as usize];
        for (i, p) in func.params.iter().enumerate() {
            if let Some(a) = args.get(i) {
                regs[*p as usize] = a.clone();
            }
        }
        st.frames.push(Frame {
            func,
            block: 0,
            ip: 0,
            regs,
            allocas: vec![],
            dst,
            normal,
        });
        Ok(())
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        for a in fr.allocas {
            st.mem.remove(&a);
        }
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        if let (Some(d), Some(v)) = (fr.dst, v) {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
        if let Some(b) = fr.normal {
            self.goto(st, b)?;
        }
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let func = fr.func.clone();
        let ip = fr.ip;
        fr.ip += 1;
        self.cur_fork_ip = ip;
        st.steps += 1;
        let inst = &func.blocks[fr.block as usize].insts[ip as usize];
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.frames.last_mut().unwrap().regs[$d as usize] = v;
            }};
        }
        match inst {
            Inst::Alloca {
                dst,
                size,
                cnt,
                align,
            } => {
                let c = self.get(st, cnt);
                let c = self.conc(st, &c)?;
                let a = self.alloc(st, size * c, *align);
                st.allocd -= size * c;
                st.frames.last_mut().unwrap().allocas.push(a);
                set!(*dst, Val::C(a));
            }
            Inst::Load { dst, ty, ptr } => {
                let p = self.get(st, ptr);
                let v = self.load(st, &p, *ty)?;
                set!(*dst, v);
            }
            Inst::Store { ty, val, ptr } => {
                let p = self.get(st, ptr);
                let v = self.get(st, val);
                self.store(st, &p, *ty, &v)?;
            }
            Inst::Gep {
                dst,
                base,
                off,
                terms,
            } => {
                let b = self.get(st, base);
                let mut conc = match b {
                    Val::C(k) => Some(k.wrapping_add(*off)),
                    _ => None,
                };
                let mut sym: Option<E> = match b {
                    Val::S(e) => {
                        conc = Some(*off);
                        Some(e)
                    }
                    _ => None,
                };
                if let Val::A(_) = b {
                    return internal("vector gep");
                }
                for (o, w, sc) in terms {
                    match self.get(st, o) {
                        Val::C(k) => {
                            conc = Some(
                                conc.unwrap()
                                    .wrapping_add((sext64(k, *w) as u64).wrapping_mul(*sc)),
                            );
                        }
                        Val::S(e) => {
                            let e = if *w < 64 { self.pool.sext(e, 64) } else { e };
                            let s = self.pool.c(64, *sc as u128);
                            let t = self.pool.bin(Op::Mul, e, s);
                            sym = Some(match sym {
                                None => t,
                                Some(x) => self.pool.bin(Op::Add, x, t),
                            });
                        }
                        _ => return internal("vector gep"),
                    }
                }
                let v = match sym {
                    None => Val::C(conc.unwrap()),
                    Some(e) => {
                        let k = self.pool.c(64, conc.unwrap() as u128);
                        let r = self.pool.bin(Op::Add, e, k);
                        e2v(&self.pool, r)
                    }
                };
                set!(*dst, v);
            }
            Inst::Bin { dst, op, ty, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.bin(*op, *ty, &x, &y)?;
                set!(*dst, v);
            }
            Inst::Icmp {
                dst,
                pred,
                ty,
                a,
                b,
            } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = if let (Val::A(xs), Val::A(ys)) = (&x, &y) {
                    let Ty::Vec(_, et) = self.m.tys[*ty as usize] else {
                        return internal("icmp");
                    };
                    let w = self.m.bits(et);
                    let mut out = vec![];
                    for i in 0..xs.len() {
                        out.push(self.icmp(*pred, w, &xs[i], &ys[i]));
                    }
                    Val::A(out.into())
                } else {
                    let w = self.m.bits(*ty);
                    self.icmp(*pred, w, &x, &y)
                };
                set!(*dst, v);
            }
            Inst::Fcmp {
                dst,
                pred,
                ty,
                a,
                b,
            } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if let Val::A(_) = x {
                    return internal("vector fcmp");
                }
                let w = self.m.bits(*ty);
                let v = self.fcmp(pred, w, &x, &y)?;
                set!(*dst, v);
            }
            Inst::Fneg { dst, ty, a } => {
                let x = self.get(st, a);
                if let Val::A(_) = x {
                    return internal("vector fneg");
                }
                let w = self.m.bits(*ty);
                let v = self.binw(Op::Xor, w, &x, &Val::C(1u64 << (w - 1)));
                set!(*dst, v);
            }
            Inst::Cast {
                dst,
                kind,
                from,
                to,
                a,
            } => {
                let x = self.get(st, a);
                let v = self.cast(*kind, *from, *to, &x)?;
                set!(*dst, v);
            }
            Inst::Select {
                dst, ty, c, a, b, ..
            } => {
                let cv = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.select(*ty, &cv, &x, &y)?;
                set!(*dst, v);
            }
            Inst::ExtractValue { dst, a, path } => {
                let mut v = self.get(st, a);
                for &k in path {
                    let Val::A(xs) = v else {
                        return internal("extractvalue");
                    };
                    v = xs[k as usize].clone();
                }
                set!(*dst, v);
            }
            Inst::InsertValue { dst, a, b, path } => {
                let v = self.get(st, a);
                let x = self.get(st, b);
                fn ins(v: &Val, path: &[u32], x: Val) -> Option<Val> {
                    if path.is_empty() {
                        return Some(x);
                    }
                    let Val::A(xs) = v else { return None };
                    let mut ys = xs.to_vec();
                    ys[path[0] as usize] = ins(&xs[path[0] as usize], &path[1..], x)?;
                    Some(Val::A(ys.into()))
                }
                let Some(v) = ins(&v, path, x) else {
                    return internal("insertvalue");
                };
                set!(*dst, v);
            }
            Inst::ExtractElement { dst, a, i } => {
                let v = self.get(st, a);
                let i = self.get(st, i);
                let i = self.conc(st, &i)?;
                let Val::A(xs) = v else {
                    return internal("extractelement");
                };
                set!(*dst, xs[i as usize].clone());
            }
            Inst::InsertElement { dst, a, b, i } => {
                let v = self.get(st, a);
                let x = self.get(st, b);
                let i = self.get(st, i);
                let i = self.conc(st, &i)?;
                let Val::A(xs) = v else {
                    return internal("insertelement");
                };
                let mut ys = xs.to_vec();
                ys[i as usize] = x;
                set!(*dst, Val::A(ys.into()));
            }
            Inst::Shuffle { dst, a, b, mask } => {
                let (Val::A(xs), Val::A(ys)) = (self.get(st, a), self.get(st, b)) else {
                    return internal("shuffle");
                };
                let n = xs.len() as i32;
                let out: Vec<Val> = mask
                    .iter()
                    .map(|&k| {
                        if k < n {
                            xs[k as usize].clone()
                        } else {
                            ys[(k - n) as usize].clone()
                        }
                    })
                    .collect();
                set!(*dst, Val::A(out.into()));
            }
            Inst::Copy { dst, a } => {
                if *dst != u32::MAX {
                    let v = self.get(st, a);
                    set!(*dst, v);
                }
            }
            Inst::Cmpxchg {
                dst,
                ty,
                ptr,
                cmp,
                new,
            } => {
                let p = self.get(st, ptr);
                let c = self.get(st, cmp);
                let n = self.get(st, new);
                let old = self.load(st, &p, *ty)?;
                let w = self.m.bits(*ty);
                let eq = self.icmp(Pred::Eq, w, &old, &c);
                let nv = self.select(*ty, &eq, &n, &old)?;
                self.store(st, &p, *ty, &nv)?;
                set!(*dst, Val::A(Rc::from(vec![old, eq])));
            }
            Inst::Rmw {
                dst,
                op,
                ty,
                ptr,
                val,
            } => {
                let p = self.get(st, ptr);
                let v = self.get(st, val);
                let w = self.m.bits(*ty);
                let old = self.load(st, &p, *ty)?;
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => self.binw(Op::Add, w, &old, &v),
                    "sub" => self.binw(Op::Sub, w, &old, &v),
                    "and" => self.binw(Op::And, w, &old, &v),
                    "or" => self.binw(Op::Or, w, &old, &v),
                    "xor" => self.binw(Op::Xor, w, &old, &v),
                    _ => return internal(format!("atomicrmw {}", op)),
                };
                self.store(st, &p, *ty, &nv)?;
                if *dst != u32::MAX {
                    set!(*dst, old);
                }
            }
            Inst::Br(b) => self.goto(st, *b)?,
            Inst::CondBr(c, a, b) => {
                let (a, b) = (*a, *b);
                match self.get(st, c) {
                    Val::C(k) => self.goto(st, if k & 1 != 0 { a } else { b })?,
                    Val::S(e) => {
                        if self.has_fp(e) {
                            if let Some(n) = self.join(st, e, a, b) {
                                *st = n;
                                return Ok(());
                            }
                        }
                        let v =
                            self.branch(st, e, |x, n, dir| x.goto(n, if dir { a } else { b }))?;
                        self.goto(st, if v { a } else { b })?;
                    }
                    _ => return internal("condbr"),
                }
            }
            Inst::Switch { ty, v, def, cases } => match self.get(st, v) {
                Val::C(k) => {
                    let t = cases
                        .iter()
                        .find(|c| c.0 == k as u128)
                        .map(|c| c.1)
                        .unwrap_or(*def);
                    self.goto(st, t)?;
                }
                Val::S(e) => {
                    let w = self.m.bits(*ty);
                    // conditions per target
                    let mut conds: Vec<(u32, E)> = vec![];
                    let mut any = self.pool.c(1, 0);
                    for (k, t) in cases {
                        let kc = self.pool.c(w, *k);
                        let q = self.pool.eq(e, kc);
                        any = self.pool.bin(Op::Or, any, q);
                        match conds.iter_mut().find(|x| x.0 == *t) {
                            Some(x) => x.1 = self.pool.bin(Op::Or, x.1, q),
                            None => conds.push((*t, q)),
                        }
                    }
                    let d = self.pool.not(any);
                    match conds.iter_mut().find(|x| x.0 == *def) {
                        Some(x) => x.1 = self.pool.bin(Op::Or, x.1, d),
                        None => conds.push((*def, d)),
                    }
                    let mut mine = None;
                    let site = self.site(st);
                    let mut forked = false;
                    for &(t, c) in &conds {
                        if self.eval(st, c) == 1 {
                            mine = Some((t, c));
                            continue;
                        }
                        self.rep.branch_queries += 1;
                        if let Some(m) = self.sat(st, c, &|_| format!("switch in {}", site)) {
                            let mut n = self.fork(st, c, m);
                            self.goto(&mut n, t)?;
                            self.work.push(n);
                            forked = true;
                        }
                    }
                    let (t, c) = mine.unwrap();
                    if forked {
                        self.add(st, c);
                    }
                    self.goto(st, t)?;
                }
                _ => return internal("switch"),
            },
            Inst::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.get(st, o));
                self.ret(st, v)?;
            }
            Inst::Unreachable => {
                return Err(Stop::Viol {
                    kind: "unreachable",
                    msg: "reached `unreachable`".into(),
                    site: self.site(st),
                })
            }
            Inst::Call {
                dst,
                ret,
                callee,
                args,
                normal,
            } => {
                let f = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Asm => {
                        if dst.is_some() {
                            let z = self.m.zero(*ret, &mut self.pool);
                            set!(dst.unwrap(), z);
                        }
                        return Ok(());
                    }
                    Callee::Ptr(o) => {
                        let p = self.get(st, o);
                        let a = self.conc(st, &p)?;
                        if a < FN_BASE || a >= FN_BASE + 16 * self.m.fns.len() as u64 || a % 16 != 0
                        {
                            return self.memerr("call", a, 0);
                        }
                        ((a - FN_BASE) / 16) as u32
                    }
                };
                let k = self.classify(f);
                match k {
                    Intr::User => {
                        let vals: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                        self.push_frame(st, f, vals, *dst, *normal)?;
                    }
                    Intr::Panic => {
                        let vals: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                        let mut site = String::new();
                        let n = self.m.fns[f as usize].name.clone();
                        if n.contains("9panic_fmt") || n.contains("panic_nounwind_fmt") {
                            if let Some(Val::C(p)) = vals.last() {
                                site = self.location(st, *p);
                            }
                        } else if n.contains("rust_begin_unwind") {
                            // PanicInfo { message: &Arguments, location: &Location, .. }
                            if let Some(Val::C(p)) = vals.first() {
                                for k in [0u64, 8, 16] {
                                    if let Some(l) = self.u64_at(st, p + k) {
                                        let s = self.location(st, l);
                                        if s.contains(".rs:") {
                                            site = s;
                                        }
                                    }
                                }
                            }
                        }
                        let what = if n.contains("alloc_error") {
                            "allocation failure"
                        } else {
                            "panic"
                        };
                        let fun = st
                            .frames
                            .iter()
                            .rev()
                            .map(|f| pretty(&self.m.fns[f.func.id as usize].name))
                            .find(|n| {
                                !n.starts_with("core::")
                                    && !n.starts_with("std::")
                                    && !n.starts_with("alloc::")
                            })
                            .unwrap_or_default();
                        let how =
                            pretty(&self.m.fns[st.frames.last().unwrap().func.id as usize].name);
                        let how = if how.contains("panicking") {
                            how.rsplit("::").next().unwrap_or("").to_string()
                        } else {
                            String::new()
                        };
                        return Err(Stop::Viol {
                            kind: "panic",
                            msg: format!("{} {} in {}", what, how, fun),
                            site,
                        });
                    }
                    Intr::Math(i) => {
                        let vals: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                        let w = self.m.bits(*ret);
                        let a = self.to_e(&vals[0], w);
                        let b = if vals.len() > 1 {
                            let w2 = self.m.bits(args[1].0);
                            self.to_e(&vals[1], w2)
                        } else {
                            NONE
                        };
                        let r = self.pool.fop(Op::Math, w, a, b, i as u128);
                        let r = e2v(&self.pool, r);
                        if let Some(d) = dst {
                            set!(*d, r);
                        }
                        if let Some(b) = normal {
                            self.goto(st, *b)?;
                        }
                    }
                    Intr::Named(n) => {
                        let vals: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                        let tys: Vec<T> = args.iter().map(|(t, _)| *t).collect();
                        let r = self.external(st, &n, &vals, &tys, *ret)?;
                        if let (Some(d), Some(v)) = (dst, r) {
                            set!(*d, v);
                        }
                        if let Some(b) = normal {
                            self.goto(st, *b)?;
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> R<()> {
        let n = self.conc(st, n)?;
        if n == 0 {
            return Ok(());
        }
        let s = self.conc(st, s)?;
        let d = self.conc(st, d)?;
        self.ensure(st, s, n)?;
        self.ensure(st, d, n)?;
        if n > self.o.alloc_limit * 16 {
            return Err(Stop::Cut("copy beyond the modelled object size".into()));
        }
        let data = self.read_bytes(st, s, n)?;
        self.write_bytes(st, d, &data)
    }

    fn lanes(
        &mut self,
        ret: T,
        vals: &[Val],
        f: &mut dyn FnMut(&mut Exec, u16, &[Val]) -> R<Val>,
    ) -> R<Val> {
        if let Ty::Vec(n, e) = self.m.tys[ret as usize] {
            let w = self.m.bits(e);
            let mut out = vec![];
            for i in 0..n as usize {
                let xs: Vec<Val> = vals
                    .iter()
                    .map(|v| match v {
                        Val::A(a) => a[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                out.push(f(self, w, &xs)?);
            }
            return Ok(Val::A(out.into()));
        }
        let w = self.m.bits(ret);
        f(self, w, vals)
    }

    fn external(
        &mut self,
        st: &mut State,
        n: &str,
        a: &[Val],
        tys: &[T],
        ret: T,
    ) -> R<Option<Val>> {
        let w0 = tys.first().map(|&t| self.m.bits(t)).unwrap_or(0);
        if let Some(x) = n.strip_prefix("sym_") {
            if self.trials > 0 {
                return internal("harness call on a side tried out");
            }
            return self.symcall(st, x, a, tys);
        }
        if let Some(x) = n.strip_prefix("llvm.") {
            if x.starts_with("memcpy") || x.starts_with("memmove") {
                self.memcpy(st, &a[0], &a[1], &a[2])?;
                return Ok(None);
            }
            if x.starts_with("memset") {
                self.memset(st, &a[0], &a[1], &a[2])?;
                return Ok(None);
            }
            if x.contains(".with.overflow") {
                let Ty::Struct(_, _) = self.m.tys[ret as usize] else {
                    return internal("vector overflow op");
                };
                let r = self.overflow(x, w0, &a[0], &a[1])?;
                return Ok(Some(r));
            }
            let op = x.split('.').next().unwrap().to_string();
            let full = x.to_string();
            match op.as_str() {
                "umax" | "umin" | "smax" | "smin" => {
                    let r = self.lanes(ret, a, &mut |s, w, v| {
                        let p = match op.as_str() {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "smax" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = s.icmp(p, w, &v[0], &v[1]);
                        match c {
                            Val::C(k) => Ok(if k != 0 { v[0].clone() } else { v[1].clone() }),
                            Val::S(c) => {
                                let (x, y) = (s.to_e(&v[0], w), s.to_e(&v[1], w));
                                let r = s.pool.ite(c, x, y);
                                Ok(e2v(&s.pool, r))
                            }
                            _ => internal("minmax"),
                        }
                    })?;
                    return Ok(Some(r));
                }
                "abs" => {
                    let v0 = [a[0].clone()];
                    let r = self.lanes(ret, &v0, &mut |s, w, v| {
                        let z = Val::C(0);
                        let c = s.icmp(Pred::Slt, w, &v[0], &z);
                        let neg = s.binw(Op::Sub, w, &z, &v[0]);
                        let c = s.to_e(&c, 1);
                        let (x, y) = (s.to_e(&neg, w), s.to_e(&v[0], w));
                        let r = s.pool.ite(c, x, y);
                        Ok(e2v(&s.pool, r))
                    })?;
                    return Ok(Some(r));
                }
                "bswap" | "bitreverse" => {
                    let step = if op == "bswap" { 8 } else { 1 };
                    let r = self.lanes(ret, a, &mut |s, w, v| {
                        let x = s.to_e(&v[0], w);
                        let mut r = s.pool.extract(x, 0, step);
                        let mut i = step;
                        while i < w {
                            let p = s.pool.extract(x, i, step);
                            r = s.pool.concat(r, p);
                            i += step;
                        }
                        Ok(e2v(&s.pool, r))
                    })?;
                    return Ok(Some(r));
                }
                "ctpop" => {
                    let r = self.lanes(ret, a, &mut |s, w, v| {
                        if let Val::C(k) = v[0] {
                            return Ok(Val::C(k.count_ones() as u64));
                        }
                        let x = s.to_e(&v[0], w);
                        let mut r = s.pool.c(w, 0);
                        for i in 0..w {
                            let b = s.pool.extract(x, i, 1);
                            let b = s.pool.zext(b, w);
                            r = s.pool.bin(Op::Add, r, b);
                        }
                        Ok(e2v(&s.pool, r))
                    })?;
                    return Ok(Some(r));
                }
                "ctlz" | "cttz" => {
                    let v0 = [a[0].clone()];
                    let r = self.lanes(ret, &v0, &mut |s, w, v| {
                        let x = s.to_e(&v[0], w);
                        let mut r = s.pool.c(w, w as u128);
                        for i in 0..w {
                            // lowest priority first
                            let bit = if op == "ctlz" { i } else { w - 1 - i };
                            let b = s.pool.extract(x, bit, 1);
                            let k = if op == "ctlz" { w - 1 - i } else { w - 1 - i };
                            let k = s.pool.c(w, k as u128);
                            r = s.pool.ite(b, k, r);
                        }
                        Ok(e2v(&s.pool, r))
                    })?;
                    return Ok(Some(r));
                }
                "fshl" | "fshr" => {
                    let r = self.lanes(ret, a, &mut |s, w, v| {
                        let sh = s.binw(Op::URem, w, &v[2], &Val::C(w as u64));
                        let left = op == "fshl";
                        if let Val::C(k) = sh {
                            let k = k as u16;
                            if k == 0 {
                                return Ok(if left { v[0].clone() } else { v[1].clone() });
                            }
                            let (x, y) = (s.to_e(&v[0], w), s.to_e(&v[1], w));
                            let k = if left { k } else { w - k };
                            let hi = s.pool.extract(x, 0, w - k);
                            let lo = s.pool.extract(y, w - k, k);
                            let r = s.pool.concat(hi, lo);
                            return Ok(e2v(&s.pool, r));
                        }
                        // general: shifts (amount 0 handled by shift >= width giving 0)
                        let inv = s.binw(Op::Sub, w, &Val::C(w as u64), &sh);
                        let (p, q) = if left { (&sh, &inv) } else { (&inv, &sh) };
                        let x = s.binw(Op::Shl, w, &v[0], p);
                        let y = s.binw(Op::LShr, w, &v[1], q);
                        Ok(s.binw(Op::Or, w, &x, &y))
                    })?;
                    return Ok(Some(r));
                }
                "uadd" | "usub" | "sadd" | "ssub" if full.contains(".sat") => {
                    let r = self.lanes(ret, a, &mut |s, w, v| {
                        let o = s.overflow(&full, w, &v[0], &v[1])?;
                        let Val::A(o) = o else { unreachable!() };
                        let lim = match op.as_str() {
                            "uadd" => s.pool.c(w, mask(w)),
                            "usub" => s.pool.c(w, 0),
                            _ => {
                                let neg = s.icmp(Pred::Slt, w, &v[0], &Val::C(0));
                                let neg = s.to_e(&neg, 1);
                                let mn = s.pool.c(w, 1u128 << (w - 1));
                                let mx = s.pool.c(w, (1u128 << (w - 1)) - 1);
                                s.pool.ite(neg, mn, mx)
                            }
                        };
                        let c = s.to_e(&o[1], 1);
                        let x = s.to_e(&o[0], w);
                        let r = s.pool.ite(c, lim, x);
                        Ok(e2v(&s.pool, r))
                    })?;
                    return Ok(Some(r));
                }
                "ucmp" | "scmp" => {
                    let wr = self.m.bits(ret);
                    let p = if op == "ucmp" { Pred::Ult } else { Pred::Slt };
                    let lt = self.icmp(p, w0, &a[0], &a[1]);
                    let gt = self.icmp(p, w0, &a[1], &a[0]);
                    let (lt, gt) = (self.to_e(&lt, 1), self.to_e(&gt, 1));
                    let (m1, z, one) = (
                        self.pool.c(wr, mask(wr)),
                        self.pool.c(wr, 0),
                        self.pool.c(wr, 1),
                    );
                    let r = self.pool.ite(gt, one, z);
                    let r = self.pool.ite(lt, m1, r);
                    return Ok(Some(e2v(&self.pool, r)));
                }
                "is" if n.contains("fpclass") => {
                    let w = w0;
                    let Val::C(m) = a[1] else {
                        return internal("is.fpclass mask");
                    };
                    let x = self.to_e(&a[0], w);
                    let (mb, inf, qb, norm) = if w == 32 {
                        (23u16, 0x7f80_0000u128, 0x7fc0_0000u128, 0x0080_0000u128)
                    } else {
                        (
                            52,
                            0x7ff0_0000_0000_0000,
                            0x7ff8_0000_0000_0000,
                            0x0010_0000_0000_0000,
                        )
                    };
                    let _ = mb;
                    let low = self.pool.extract(x, 0, w - 1);
                    let p = &mut self.pool;
                    let ab = p.zext(low, w);
                    let neg = p.extract(x, w - 1, 1);
                    let pos = p.not(neg);
                    let (z, ci, cq, cn) = (p.c(w, 0), p.c(w, inf), p.c(w, qb), p.c(w, norm));
                    let is_nan = p.ult(ci, ab);
                    let ge_q = p.ult(ab, cq);
                    let is_q = p.not(ge_q);
                    let is_s = p.bin(Op::And, is_nan, ge_q);
                    let is_inf = p.eq(ab, ci);
                    let is_zero = p.eq(ab, z);
                    let nz = p.not(is_zero);
                    let ltn = p.ult(ab, cn);
                    let is_sub = p.bin(Op::And, nz, ltn);
                    let gen = p.not(ltn);
                    let fin = p.ult(ab, ci);
                    let is_norm = p.bin(Op::And, gen, fin);
                    let cases = [
                        (is_s, None),
                        (is_q, None),
                        (is_inf, Some(neg)),
                        (is_norm, Some(neg)),
                        (is_sub, Some(neg)),
                        (is_zero, Some(neg)),
                        (is_zero, Some(pos)),
                        (is_sub, Some(pos)),
                        (is_norm, Some(pos)),
                        (is_inf, Some(pos)),
                    ];
                    let mut r = p.c(1, 0);
                    for (k, (c, sg)) in cases.into_iter().enumerate() {
                        if m >> k & 1 == 1 {
                            let t = match sg {
                                Some(sg) => p.bin(Op::And, c, sg),
                                None => c,
                            };
                            r = p.bin(Op::Or, r, t);
                        }
                    }
                    return Ok(Some(e2v(&self.pool, r)));
                }
                "powi" => {
                    let w = self.m.bits(ret);
                    let x = self.to_e(&a[0], w);
                    let y = self.to_e(&a[1], 32);
                    let r = self.pool.fop(Op::Powi, w, x, y, 0);
                    return Ok(Some(e2v(&self.pool, r)));
                }
                "fabs" => {
                    let w = self.m.bits(ret);
                    let m = mask(w) as u64 >> 1;
                    return Ok(Some(self.binw(Op::And, w, &a[0], &Val::C(m))));
                }
                "sqrt" | "ceil" | "floor" | "trunc" | "rint" | "nearbyint" | "roundeven"
                | "round" => {
                    let o = match op.as_str() {
                        "sqrt" => Op::FSqrt,
                        "ceil" => Op::FCeil,
                        "floor" => Op::FFloor,
                        "trunc" => Op::FTrunc,
                        "round" => Op::FRound,
                        _ => Op::FRint,
                    };
                    let w = self.m.bits(ret);
                    let x = self.to_e(&a[0], w);
                    let r = self.pool.fop(o, w, x, NONE, 0);
                    return Ok(Some(e2v(&self.pool, r)));
                }
                "fmuladd" => {
                    let w = self.m.bits(ret);
                    let x = self.binw(Op::FMul, w, &a[0], &a[1]);
                    return Ok(Some(self.binw(Op::FAdd, w, &x, &a[2])));
                }
                "copysign" => {
                    let w = self.m.bits(ret);
                    let m = mask(w) as u64 >> 1;
                    let x = self.binw(Op::And, w, &a[0], &Val::C(m));
                    let y = self.binw(Op::And, w, &a[1], &Val::C(1 << (w - 1)));
                    return Ok(Some(self.binw(Op::Or, w, &x, &y)));
                }
                "maxnum" | "minnum" | "maximumnum" | "minimumnum" => {
                    let w = self.m.bits(ret);
                    let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
                    let lt = if op.starts_with("max") {
                        self.pool.fop(Op::FLt, 1, y, x, 0)
                    } else {
                        self.pool.fop(Op::FLt, 1, x, y, 0)
                    };
                    let ny = self.pool.fop(Op::FUno, 1, y, NONE, 0);
                    let c = self.pool.bin(Op::Or, lt, ny);
                    let r = self.pool.ite(c, x, y);
                    return Ok(Some(e2v(&self.pool, r)));
                }
                "fptosi" | "fptoui" => {
                    let w = self.m.bits(ret);
                    let x = self.to_e(&a[0], w0);
                    let o = if op == "fptosi" {
                        Op::FToSiSat
                    } else {
                        Op::FToUiSat
                    };
                    let r = self.pool.fop(o, w, x, NONE, 0);
                    return Ok(Some(e2v(&self.pool, r)));
                }
                "is" if full.starts_with("is.constant") => return Ok(Some(Val::C(0))),
                "is" if full.starts_with("is.fpclass") => {
                    let Val::C(m) = a[1] else {
                        return internal("fpclass");
                    };
                    let x = self.to_e(&a[0], w0);
                    if m == 3 {
                        let r = self.pool.fop(Op::FUno, 1, x, NONE, 0);
                        return Ok(Some(e2v(&self.pool, r)));
                    }
                    let (ew, mw) = if w0 == 32 { (8u16, 23u16) } else { (11, 52) };
                    let sgn = self.pool.extract(x, w0 - 1, 1);
                    let ex = self.pool.extract(x, mw, ew);
                    let mn = self.pool.extract(x, 0, mw);
                    let pl = &mut self.pool;
                    let (z1, z2, f1) = (pl.c(ew, 0), pl.c(mw, 0), pl.c(ew, mask(ew)));
                    let e0 = pl.eq(ex, z1);
                    let e1 = pl.eq(ex, f1);
                    let m0 = pl.eq(mn, z2);
                    let pos = pl.not(sgn);
                    let ne0 = pl.not(e0);
                    let ne1 = pl.not(e1);
                    let nm0 = pl.not(m0);
                    let nan = pl.bin(Op::And, e1, nm0);
                    let inf = pl.bin(Op::And, e1, m0);
                    let zero = pl.bin(Op::And, e0, m0);
                    let sub = pl.bin(Op::And, e0, nm0);
                    let nor = pl.bin(Op::And, ne0, ne1);
                    let mut r = pl.c(1, 0);
                    for (bit, c, s) in [
                        (2, inf, Some(sgn)),
                        (3, nor, Some(sgn)),
                        (4, sub, Some(sgn)),
                        (5, zero, Some(sgn)),
                        (6, zero, Some(pos)),
                        (7, sub, Some(pos)),
                        (8, nor, Some(pos)),
                        (9, inf, Some(pos)),
                    ] {
                        if m >> bit & 1 == 1 {
                            let q = match s {
                                Some(s) => pl.bin(Op::And, c, s),
                                None => c,
                            };
                            r = pl.bin(Op::Or, r, q);
                        }
                    }
                    if m & 3 != 0 {
                        r = pl.bin(Op::Or, r, nan);
                    }
                    return Ok(Some(e2v(&self.pool, r)));
                }
                "expect" => return Ok(Some(a[0].clone())),
                "threadlocal" => return Ok(Some(a[0].clone())),
                "vector" if full.starts_with("vector.reduce.") => {
                    let what = full.split('.').nth(2).unwrap().to_string();
                    let Val::A(xs) = &a[0] else {
                        return internal("reduce");
                    };
                    let w = self.m.bits(ret);
                    let mut r = xs[0].clone();
                    for x in xs[1..].iter() {
                        r = match what.as_str() {
                            "add" => self.binw(Op::Add, w, &r, x),
                            "or" => self.binw(Op::Or, w, &r, x),
                            "and" => self.binw(Op::And, w, &r, x),
                            "xor" => self.binw(Op::Xor, w, &r, x),
                            "mul" => self.binw(Op::Mul, w, &r, x),
                            "umax" | "umin" | "smax" | "smin" => {
                                let p = match what.as_str() {
                                    "umax" => Pred::Ugt,
                                    "umin" => Pred::Ult,
                                    "smax" => Pred::Sgt,
                                    _ => Pred::Slt,
                                };
                                let c = self.icmp(p, w, &r, x);
                                self.select(ret, &c, &r, x)?
                            }
                            _ => return internal(full),
                        };
                    }
                    return Ok(Some(r));
                }
                "trap" | "ubsantrap" => {
                    return Err(Stop::Viol {
                        kind: "panic",
                        msg: "trap".into(),
                        site: self.site(st),
                    });
                }
                "fence" | "sideeffect" => return Ok(None),
                _ => return internal(format!("intrinsic {}", n)),
            }
        }
        match n {
            "malloc" => Ok(Some(self.malloc(st, &a[0], 16)?)),
            "calloc" => {
                let sz = self.binw(Op::Mul, 64, &a[0], &a[1]);
                Ok(Some(self.malloc(st, &sz, 16)?))
            }
            "posix_memalign" => {
                let al = self.conc(st, &a[1])?;
                let p = self.malloc(st, &a[2], al)?;
                let pt = self.m.int(Ty::Ptr);
                self.store(st, &a[0], pt, &p)?;
                Ok(Some(Val::C(0)))
            }
            "aligned_alloc" | "memalign" => {
                let al = self.conc(st, &a[0])?;
                Ok(Some(self.malloc(st, &a[1], al)?))
            }
            "free" => {
                let p = self.conc(st, &a[0])?;
                if p != 0 && st.mem.remove(&p).is_none() {
                    return self.memerr("free", p, 0);
                }
                Ok(None)
            }
            "realloc" => {
                let p = self.conc(st, &a[0])?;
                let np = self.malloc(st, &a[1], 16)?;
                let Val::C(npa) = np else { unreachable!() };
                if p != 0 {
                    let Some(old) = st.mem.remove(&p) else {
                        return self.memerr("realloc", p, 0);
                    };
                    let new = st.mem.get_mut(&npa).unwrap();
                    let new = Rc::make_mut(new);
                    let k = old.data.len().min(new.cap as usize);
                    new.grow(k);
                    new.data[..k].copy_from_slice(&old.data[..k]);
                    new.fill = old.fill;
                }
                Ok(Some(Val::C(npa)))
            }
            "memcpy" | "memmove" => {
                self.memcpy(st, &a[0], &a[1], &a[2])?;
                Ok(Some(a[0].clone()))
            }
            "memset" => {
                self.memset(st, &a[0], &a[1], &a[2])?;
                Ok(Some(a[0].clone()))
            }
            "bcmp" | "memcmp" => {
                let n2 = self.conc(st, &a[2])?;
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                self.ensure(st, p, n2)?;
                self.ensure(st, q, n2)?;
                let x = self.read_bytes(st, p, n2)?;
                let y = self.read_bytes(st, q, n2)?;
                let mut r = self.pool.c(32, 0);
                for i in (0..n2 as usize).rev() {
                    if x[i] == y[i] {
                        continue;
                    }
                    let xe = if x[i] < 256 {
                        self.pool.c(8, x[i] as u128)
                    } else {
                        x[i] - 256
                    };
                    let ye = if y[i] < 256 {
                        self.pool.c(8, y[i] as u128)
                    } else {
                        y[i] - 256
                    };
                    let eq = self.pool.eq(xe, ye);
                    let d = if n == "bcmp" {
                        self.pool.c(32, 1)
                    } else {
                        let (x4, y4) = (self.pool.zext(xe, 32), self.pool.zext(ye, 32));
                        self.pool.bin(Op::Sub, x4, y4)
                    };
                    r = self.pool.ite(eq, r, d);
                }
                Ok(Some(e2v(&self.pool, r)))
            }
            "strlen" => {
                let p = self.conc(st, &a[0])?;
                let mut k = 0;
                loop {
                    let b = self.read_bytes(st, p + k, 1)?;
                    if b[0] == 0 {
                        return Ok(Some(Val::C(k)));
                    }
                    if b[0] > 255 {
                        return internal("symbolic strlen");
                    }
                    k += 1;
                }
            }
            "syscall" => {
                let nr = self.conc(st, &a[0])?;
                if nr == 318 {
                    // getrandom
                    let p = self.conc(st, &a[1])?;
                    let len = self.conc(st, &a[2])?;
                    let d: Vec<u32> = (0..len).map(|i| (i as u32 * 37 + 11) & 0xff).collect();
                    self.write_bytes(st, p, &d)?;
                    return Ok(Some(Val::C(len)));
                }
                internal(format!("syscall {}", nr))
            }
            "getrandom" => {
                let p = self.conc(st, &a[0])?;
                let len = self.conc(st, &a[1])?;
                let d: Vec<u32> = (0..len).map(|i| (i as u32 * 37 + 11) & 0xff).collect();
                self.write_bytes(st, p, &d)?;
                Ok(Some(Val::C(len)))
            }
            "getenv" => Ok(Some(Val::C(0))),
            "__errno_location" => {
                if st.errno == 0 {
                    let Val::C(p) = self.malloc(st, &Val::C(4), 16)? else {
                        unreachable!()
                    };
                    self.write_bytes(st, p, &[0; 4])?;
                    st.errno = p;
                }
                Ok(Some(Val::C(st.errno)))
            }
            "open" | "open64" => {
                let p = self.conc(st, &a[0])?;
                let flags = self.conc(st, &a[1])?;
                let mut name = vec![];
                loop {
                    let b = self.read_bytes(st, p + name.len() as u64, 1)?[0];
                    match b {
                        0 => break,
                        1..=255 => name.push(b as u8),
                        _ => return internal("symbolic file name"),
                    }
                }
                let at = st.files.iter().position(|f| f.0 == name);
                let i = match at {
                    Some(i) => i,
                    // there are no directories but that of the devices
                    None if name.contains(&b'/') && name != b"/dev/full" => return self.fail_call(st, 2, 32),
                    None if flags & 0o100 != 0 || name == b"/dev/full" => {
                        Rc::make_mut(&mut st.files).push((name, vec![]));
                        st.files.len() - 1
                    }
                    None => return self.fail_call(st, 2, 32),
                };
                if flags & 0o1000 != 0 {
                    Rc::make_mut(&mut st.files)[i].1.clear();
                }
                st.fds.push(Some((i, 0)));
                Ok(Some(Val::C(st.fds.len() as u64 + 2)))
            }
            "read" => {
                let fd = self.conc(st, &a[0])? as usize;
                let Some(Some((i, at))) = st.fds.get(fd.wrapping_sub(3)).copied() else {
                    return self.fail_call(st, 9, 64);
                };
                let n = self.conc(st, &a[2])? as usize;
                let p = self.conc(st, &a[1])?;
                let d = &st.files.clone()[i].1;
                let at = at.min(d.len());
                let k = n.min(d.len() - at);
                self.write_bytes(st, p, &d[at..at + k])?;
                st.fds[fd - 3] = Some((i, at + k));
                Ok(Some(Val::C(k as u64)))
            }
            "fcntl" | "fcntl64" => Ok(Some(Val::C(1))),
            "close" => {
                let fd = self.conc(st, &a[0])? as usize;
                if let Some(x) = st.fds.get_mut(fd.wrapping_sub(3)) {
                    *x = None;
                }
                Ok(Some(Val::C(0)))
            }
            "fstat64" | "fstat" | "statx" => self.fail_call(st, 38, 32),
            "lseek64" => {
                let fd = self.conc(st, &a[0])? as usize;
                let Some(Some((i, at))) = st.fds.get(fd.wrapping_sub(3)).copied() else {
                    return self.fail_call(st, 9, 64);
                };
                let base = match self.conc(st, &a[2])? & 0xffff_ffff {
                    0 => 0,
                    1 => at as i64,
                    _ => st.files[i].1.len() as i64,
                };
                // the new position may depend on the contents of the file
                let off = self.conc(st, &a[1])? as i64;
                match base.checked_add(off) {
                    Some(x) if x >= 0 => {
                        st.fds[fd - 3] = Some((i, x as usize));
                        Ok(Some(Val::C(x as u64)))
                    }
                    _ => self.fail_call(st, 22, 64),
                }
            }
            "__xpg_strerror_r" | "strerror_r" => {
                let p = self.conc(st, &a[1])?;
                let d: Vec<u32> = b"some error\0".iter().map(|x| *x as u32).collect();
                self.write_bytes(st, p, &d)?;
                Ok(Some(Val::C(0)))
            }
            "write" => {
                let fd = self.conc(st, &a[0])? as usize;
                if let Some(Some((i, at))) = st.fds.get(fd.wrapping_sub(3)).copied() {
                    let n = self.conc(st, &a[2])?;
                    let p = self.conc(st, &a[1])?;
                    let d = self.read_bytes(st, p, n)?;
                    if st.files[i].0 == b"/dev/full" && n > 0 {
                        return self.fail_call(st, 28, 64);
                    }
                    let f = &mut Rc::make_mut(&mut st.files)[i].1;
                    let end = at + n as usize;
                    f.resize(f.len().max(end), 0);
                    f[at..end].copy_from_slice(&d);
                    st.fds[fd - 3] = Some((i, at + n as usize));
                }
                Ok(Some(a[2].clone()))
            }
            "__cxa_thread_atexit_impl" => Ok(Some(Val::C(0))),
            "abort" => Err(Stop::Viol {
                kind: "panic",
                msg: "abort".into(),
                site: self.site(st),
            }),
            _ if n.starts_with("opj_") => Err(Stop::Cut(format!("foreign function {}", n))),
            _ => internal(format!("external function {}", n)),
        }
    }

    /// A failed system call.
    fn fail_call(&mut self, st: &mut State, errno: u32, w: u16) -> R<Option<Val>> {
        if st.errno == 0 {
            let Val::C(p) = self.malloc(st, &Val::C(4), 16)? else {
                unreachable!()
            };
            st.errno = p;
        }
        let p = st.errno;
        self.write_bytes(st, p, &[errno, 0, 0, 0])?;
        Ok(Some(Val::C(mask(w) as u64)))
    }

    fn memset(&mut self, st: &mut State, d: &Val, v: &Val, n: &Val) -> R<()> {
        let d = self.conc(st, d)?;
        let b = match v {
            Val::C(k) => (*k & 0xff) as u32,
            Val::S(e) => {
                let w = self.pool.w(*e);
                let x = if w > 8 {
                    self.pool.extract(*e, 0, 8)
                } else {
                    *e
                };
                match self.pool.cval(x) {
                    Some(k) => k as u32,
                    None => x + 256,
                }
            }
            _ => return internal("memset"),
        };
        // filling a whole lazily sized object
        if let Some(o) = st.mem.get_mut(&d) {
            let whole = match (n, o.slen) {
                (Val::S(e), Some(l)) => *e == l,
                (Val::C(k), None) => *k == o.cap && *k > 4096,
                _ => false,
            };
            if whole {
                let o = Rc::make_mut(o);
                o.data.clear();
                o.fill = b;
                return Ok(());
            }
        }
        let n = self.conc(st, n)?;
        self.ensure(st, d, n)?;
        if n > self.o.alloc_limit * 16 {
            return Err(Stop::Cut("fill beyond the modelled object size".into()));
        }
        self.write_bytes(st, d, &vec![b; n as usize])
    }

    fn overflow(&mut self, x: &str, w: u16, a: &Val, b: &Val) -> R<Val> {
        let signed = x.starts_with('s');
        let op = match &x[1..4] {
            "add" => Op::Add,
            "sub" => Op::Sub,
            "mul" => Op::Mul,
            _ => return internal(x),
        };
        if let (Val::C(p), Val::C(q)) = (a, b) {
            if w <= 64 {
                let (r, ov) = if signed {
                    let (p, q) = (sext64(*p, w) as i128, sext64(*q, w) as i128);
                    let r = match op {
                        Op::Add => p + q,
                        Op::Sub => p - q,
                        _ => p * q,
                    };
                    let t = (r as u128) & mask(w);
                    (t as u64, sx(t, w) != r)
                } else {
                    let (p, q) = (*p as u128, *q as u128);
                    let r = match op {
                        Op::Add => p + q,
                        Op::Sub => p.wrapping_sub(q),
                        _ => p * q,
                    };
                    ((r & mask(w)) as u64, r > mask(w))
                };
                return Ok(Val::A(Rc::from(vec![Val::C(r), Val::C(ov as u64)])));
            }
        }
        let (p, q) = (self.to_e(a, w), self.to_e(b, w));
        let pl = &mut self.pool;
        let r = pl.bin(op, p, q);
        if signed && w <= 64 {
            let (x, y) = (pl.srange(p), pl.srange(q));
            let (lo, hi) = match op {
                Op::Add => (x.0 + y.0, x.1 + y.1),
                Op::Sub => (x.0 - y.1, x.1 - y.0),
                _ => {
                    let m =
                        x.0.abs()
                            .max(x.1.abs())
                            .checked_mul(y.0.abs().max(y.1.abs()))
                            .unwrap_or(i128::MAX);
                    (-m, m)
                }
            };
            if lo >= -(1i128 << (w - 1)) && hi < 1i128 << (w - 1) {
                let z = pl.c(1, 0);
                let (r, z) = (e2v(pl, r), e2v(pl, z));
                return Ok(Val::A(Rc::from(vec![r, z])));
            }
        }
        let ov = match (op, signed) {
            (Op::Add, false) => {
                // narrow operands cannot overflow
                if pl.lz(p) > 0 && pl.lz(q) > 0 {
                    pl.c(1, 0)
                } else {
                    pl.ult(r, p)
                }
            }
            (Op::Sub, false) => pl.ult(p, q),
            (Op::Add, true) | (Op::Sub, true) => {
                if pl.lz(p) > 1 && pl.lz(q) > 1 && op == Op::Add
                    || pl.lz(p) > 0 && pl.lz(q) > 0 && op == Op::Sub
                {
                    pl.c(1, 0)
                } else {
                    let (sp, sq, sr) = (
                        pl.extract(p, w - 1, 1),
                        pl.extract(q, w - 1, 1),
                        pl.extract(r, w - 1, 1),
                    );
                    // add: same signs in, different out; sub: different signs in, result differs from p
                    let d = pl.bin(Op::Xor, sp, sq);
                    let same = if op == Op::Add { pl.not(d) } else { d };
                    let ch = pl.bin(Op::Xor, sp, sr);
                    pl.bin(Op::And, same, ch)
                }
            }
            _ => {
                if w > 64 {
                    return internal("wide multiplication overflow");
                }
                if !signed {
                    let (l1, l2) = (pl.lz(p), pl.lz(q));
                    if l1 + l2 >= w {
                        let z = pl.c(1, 0);
                        let r = e2v(pl, r);
                        let z = e2v(pl, z);
                        return Ok(Val::A(Rc::from(vec![r, z])));
                    }
                    // constant factor: compare with the largest safe operand
                    let kc = pl.cval(q).map(|k| (p, k)).or(pl.cval(p).map(|k| (q, k)));
                    if let Some((v, k)) = kc {
                        if k != 0 {
                            let lim = pl.c(w, mask(w) / k);
                            let ov = pl.ult(lim, v);
                            let (r, ov) = (e2v(pl, r), e2v(pl, ov));
                            return Ok(Val::A(Rc::from(vec![r, ov])));
                        }
                    }
                }
                let w2 = 2 * w;
                let (p2, q2) = if signed {
                    (pl.sext(p, w2), pl.sext(q, w2))
                } else {
                    (pl.zext(p, w2), pl.zext(q, w2))
                };
                let full = pl.bin(Op::Mul, p2, q2);
                let back = if signed {
                    pl.sext(r, w2)
                } else {
                    pl.zext(r, w2)
                };
                let e = pl.eq(full, back);
                pl.not(e)
            }
        };
        let (r, ov) = (e2v(&self.pool, r), e2v(&self.pool, ov));
        Ok(Val::A(Rc::from(vec![r, ov])))
    }

    fn symcall(&mut self, st: &mut State, x: &str, a: &[Val], tys: &[T]) -> R<Option<Val>> {
        match x {
            "u8" | "u16" | "u32" | "u64" => {
                let w = x[1..].parse().unwrap();
                let e = self.input_var(st, w);
                Ok(Some(e2v(&self.pool, e)))
            }
            "bytes" => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let mut d = vec![];
                for _ in 0..n {
                    let e = self.input_var(st, 8);
                    d.push(match self.pool.cval(e) {
                        Some(k) => k as u32,
                        None => e + 256,
                    });
                }
                self.write_bytes(st, p, &d)?;
                Ok(None)
            }
            "assume" => {
                match &a[0] {
                    Val::C(k) => {
                        if *k & 1 == 0 {
                            return Err(Stop::Infeasible);
                        }
                    }
                    Val::S(e) => {
                        let c = if self.pool.w(*e) > 1 {
                            self.pool.extract(*e, 0, 1)
                        } else {
                            *e
                        };
                        let site = self.site(st);
                        match self.sat(st, c, &|_| format!("assume in {}", site)) {
                            None => return Err(Stop::Infeasible),
                            Some(m) => {
                                if !Rc::ptr_eq(&m, &st.model) {
                                    st.model = m;
                                    st.gen = self.new_gen();
                                }
                                self.add(st, c);
                            }
                        }
                    }
                    _ => return internal("assume"),
                }
                Ok(None)
            }
            "check" => {
                self.rep.checks += 1;
                let (Val::C(mp), Val::C(ml)) = (&a[1], &a[2]) else {
                    return internal("check message");
                };
                let (mp, ml) = (*mp, *ml);
                match &a[0] {
                    Val::C(k) => {
                        if *k & 1 == 0 {
                            let msg = self.str_at(st, mp, ml);
                            let site = self.site(st);
                            self.record(st, "check", msg, site);
                            return Err(Stop::Infeasible);
                        }
                        self.rep.checks_trivial += 1;
                    }
                    Val::S(e) => {
                        self.rep.checks_solver += 1;
                        let c = if self.pool.w(*e) > 1 {
                            self.pool.extract(*e, 0, 1)
                        } else {
                            *e
                        };
                        let nc = self.pool.not(c);
                        let msg = self.str_at(st, mp, ml);
                        if let Some(m) = self.sat(st, nc, &|_| format!("check '{}'", msg)) {
                            let f = self.fork(st, nc, m);
                            let site = self.site(st);
                            self.record(&f, "check", msg.clone(), site);
                            // continue where the assertion holds, if anywhere
                            match self.sat(st, c, &|_| format!("check '{}'", msg)) {
                                None => return Err(Stop::Infeasible),
                                Some(m) => {
                                    if !Rc::ptr_eq(&m, &st.model) {
                                        st.model = m;
                                        st.gen = self.new_gen();
                                    }
                                    self.add(st, c);
                                }
                            }
                        }
                    }
                    _ => return internal("check"),
                }
                Ok(None)
            }
            "cover" => {
                let k = self.conc(st, &a[0])?;
                st.covers.insert(k as u32);
                Ok(None)
            }
            "observe" => {
                let e = self.to_e(&a[0], 64);
                st.observed.push(e);
                Ok(None)
            }
            // whether two bit patterns are equal by congruence: the same floating-point operations
            // on integers the solver shows equal
            "known" => {
                let x = self.to_e(&a[0], 64);
                let y = self.to_e(&a[1], 64);
                self.failed.clear();
                self.base = st.pc.len();
                let k = self.congruent(st, x, y, 0);
                st.differ = Rc::new(if k {
                    vec![]
                } else {
                    std::mem::take(&mut self.failed)
                });
                if !k && self.trace_slow != 0.0 {
                    eprintln!(
                        "not congruent {}\n   {}",
                        self.pool.show(x, 60),
                        self.pool.show(y, 60)
                    );
                }
                Ok(Some(Val::C(k as u64)))
            }
            // restricts the path to a condition that is possible
            "prefer" => {
                let c = self.to_e(&a[0], 1);
                let before = self.rep.unknown;
                let m = self.sat(st, c, &|_| "prefer".into());
                if self.rep.unknown != before {
                    self.rep.unknown = before;
                    self.rep.unknown_sites.remove("prefer");
                } else if let Some(m) = m {
                    if !Rc::ptr_eq(&m, &st.model) {
                        st.model = m;
                        st.gen = self.new_gen();
                    }
                    self.add(st, c);
                }
                Ok(None)
            }
            // whether the value follows from inputs fixed on this path
            "concrete" => {
                let k = match &a[0] {
                    Val::C(_) => true,
                    v => {
                        let e = self.to_e(v, 64);
                        self.pool
                            .vars_of(e)
                            .iter()
                            .all(|v| st.fixed.contains_key(v))
                    }
                };
                Ok(Some(Val::C(k as u64)))
            }
            // makes the integers differ that the last `known` could not show equal, by a small
            // amount if possible; no restriction when that is impossible
            "differ" => {
                let fails = st.differ.clone();
                let yes = self.pool.c(1, 1);
                let (mut all, mut near_all, mut tries) = (yes, yes, vec![]);
                for (conds, ints) in fails.iter() {
                    let mut cond = yes;
                    for c in conds {
                        cond = self.pool.bin(Op::And, cond, *c);
                    }
                    if let Some((x, y)) = *ints {
                        let e = self.pool.eq(x, y);
                        let ne = self.pool.not(e);
                        cond = self.pool.bin(Op::And, cond, ne);
                        all = self.pool.bin(Op::And, all, ne);
                        let w = self.pool.w(x);
                        let mut near = ne;
                        if w > 13 {
                            for l in [x, y] {
                                let (off, lim) = (self.pool.c(w, 4096), self.pool.c(w, 8192));
                                let l = self.pool.bin(Op::Add, l, off);
                                let l = self.pool.ult(l, lim);
                                near = self.pool.bin(Op::And, near, l);
                            }
                        }
                        near_all = self.pool.bin(Op::And, near_all, near);
                        let near = self.pool.bin(Op::And, cond, near);
                        tries.push(near);
                    }
                    tries.push(cond);
                }
                tries.insert(0, all);
                tries.insert(0, near_all);
                for c in tries {
                    let before = self.rep.unknown;
                    let m = self.sat(st, c, &|_| "differ".into());
                    if self.rep.unknown != before {
                        self.rep.unknown = before;
                        self.rep.unknown_sites.remove("differ");
                        continue;
                    }
                    let Some(m) = m else { continue };
                    if !Rc::ptr_eq(&m, &st.model) {
                        st.model = m;
                        st.gen = self.new_gen();
                    }
                    self.add(st, c);
                    break;
                }
                Ok(None)
            }
            // one value of the inputs the argument depends on, the current model's
            "pin" => match &a[0] {
                Val::C(k) => Ok(Some(Val::C(*k))),
                v => {
                    let e = self.to_e(v, 64);
                    let k = self.eval(st, e) as u64;
                    for &v in self.pool.vars_of(e).iter() {
                        if !st.fixed.contains_key(&v) {
                            let x = self.pool.var_by_index(v as usize);
                            let c = st.model.get(v as usize).copied().unwrap_or(0);
                            let c = self.pool.c(self.pool.w(x), c as u128);
                            let eq = self.pool.eq(x, c);
                            self.add(st, eq);
                        }
                    }
                    Ok(Some(Val::C(k)))
                }
            },
            "enum" => {
                let w = self.m.bits(tys[0]);
                let _ = w;
                let k = self.conc(st, &a[0])?;
                Ok(Some(Val::C(k)))
            }
            _ => internal(format!("sym_{}", x)),
        }
    }

    // ---------------------------------------------------------------- driver

    pub fn run(&mut self, name: &str, arg: u64) -> Result<(), String> {
        self.start = Instant::now();
        let f = *self
            .m
            .fnmap
            .get(name)
            .ok_or(format!("no function {}", name))?;
        let mut st = State {
            frames: vec![],
            mem: BTreeMap::new(),
            next: HEAP_BASE + 0x1000,
            pc: vec![],
            fixed: BTreeMap::new(),
            model: Rc::new(vec![0; 64]),
            gen: 1,
            inputs: vec![],
            observed: vec![],
            covers: BTreeSet::new(),
            differ: Rc::new(vec![]),
            steps: 0,
            allocd: 0,
            files: Rc::new(vec![]),
            fds: vec![],
            errno: 0,
        };
        st.gen = self.new_gen();
        if let Err(Stop::Internal(e)) = self.push_frame(&mut st, f, vec![Val::C(arg)], None, None) {
            return Err(e);
        }
        self.work.push(st);
        // Tokens bound the number of processes at work. A process with several pending states
        // that finds a free token forks and hands half of them to the child.
        let tokens = if self.o.tokens.is_empty() {
            Tokens::own(self.o.jobs)
        } else {
            Tokens::open(&self.o.tokens)?
        };
        if !self.o.tokens.is_empty() {
            tokens.wait();
        }
        self.start = Instant::now();
        let dir = format!(
            "{}/lsx-{}",
            std::env::temp_dir().display(),
            std::process::id()
        );
        let mut root = true;
        let mut kids: Vec<i32> = vec![];
        let mut last = Instant::now();
        while !self.work.is_empty() {
            if self.start.elapsed().as_secs_f64() > self.o.time {
                self.rep
                    .incomplete
                    .push(format!("time limit, {} states pending", self.work.len()));
                break;
            }
            if self.rep.paths >= self.o.max_paths {
                self.rep
                    .incomplete
                    .push(format!("path limit, {} states pending", self.work.len()));
                break;
            }
            if self.work.len() >= 2 && last.elapsed().as_millis() as u64 >= 15 && tokens.take() {
                std::fs::create_dir_all(&dir).ok();
                let pid = unsafe { fork() };
                if pid == 0 {
                    root = false;
                    kids.clear();
                    self.rep = Report::default();
                    self.z3.queries = 0;
                    self.z3.time = 0.0;
                    self.z3.max_time = 0.0;
                    self.seen_fns.clear();
                    let me = std::process::id() as u64;
                    self.rng ^= me << 20;
                    self.search.reseed(me);
                }
                if pid >= 0 {
                    // every other state, so that both keep shallow and deep ones
                    let mut k = 0;
                    let child = pid == 0;
                    self.work.retain(|_| {
                        k += 1;
                        (k % 2 == 1) == child
                    });
                    if !child {
                        kids.push(pid);
                    }
                } else {
                    tokens.give();
                }
                last = Instant::now();
                continue;
            }
            let st = self.work.pop().unwrap();
            self.path(st);
        }
        self.finish();
        tokens.give();
        if !root {
            let s = crate::report::to_lines(&self.rep);
            std::fs::write(format!("{}/{}", dir, std::process::id()), s).ok();
        }
        let mut lost = 0;
        for pid in kids {
            let mut status = 0;
            unsafe { waitpid(pid, &mut status, 0) };
            if status != 0 {
                lost += 1;
            }
        }
        if !root {
            std::process::exit(lost);
        }
        if let Ok(d) = std::fs::read_dir(&dir) {
            for e in d.flatten() {
                if let Ok(s) = std::fs::read_to_string(e.path()) {
                    crate::report::merge(&mut self.rep, &s);
                }
            }
            std::fs::remove_dir_all(&dir).ok();
        }
        if lost > 0 {
            self.rep.incomplete.push("a worker process died".into());
        }
        self.rep.wall = self.start.elapsed().as_secs_f64();
        Ok(())
    }

    fn finish(&mut self) {
        self.rep.queries = self.z3.queries;
        self.rep.solver_time = self.z3.time;
        self.rep.solver_max = self.z3.max_time;
        self.rep.wall = self.start.elapsed().as_secs_f64();
    }

    fn path(&mut self, mut st: State) {
        let mut tick = 0u32;
        let s0 = st.steps;
        let r = loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(s) => break s,
            }
            if st.steps > self.o.fuel {
                break Stop::Viol {
                    kind: "fuel",
                    msg: "no end within the instruction bound".into(),
                    site: st
                        .frames
                        .iter()
                        .map(|f| pretty(&self.m.fns[f.func.id as usize].name))
                        .nth(1)
                        .unwrap_or_default(),
                };
            }
            tick += 1;
            if tick & 0xfff == 0 && self.start.elapsed().as_secs_f64() > self.o.time {
                self.rep.steps += st.steps - s0;
                self.work.push(st);
                return;
            }
        };
        self.rep.steps += st.steps - s0;
        self.rep.max_depth = self.rep.max_depth.max(st.steps);
        self.rep.paths += 1;
        let mut end = String::new();
        match r {
            Stop::Done => {
                self.rep.done += 1;
                end = "done".into();
            }
            Stop::Infeasible => self.rep.infeasible += 1,
            Stop::Viol { kind, msg, site } => {
                self.record(&st, kind, msg, site);
            }
            Stop::Cut(s) => *self.rep.cuts.entry(s).or_insert(0) += 1,
            Stop::Internal(s) => {
                let at = st
                    .frames
                    .iter()
                    .rev()
                    .take(3)
                    .map(|f| pretty(&self.m.fns[f.func.id as usize].name))
                    .collect::<Vec<_>>();
                *self
                    .rep
                    .internal
                    .entry(format!("{} in {}", s, at.join(" < ")))
                    .or_insert(0) += 1;
            }
        }
        if !end.is_empty() {
            for c in st.covers.clone() {
                *self.rep.covers.entry(c).or_insert(0) += 1;
            }
            // reservoir sample of traces
            let k = self.rep.done as usize;
            let slot = if self.rep.traces.len() < self.o.max_traces {
                Some(self.rep.traces.len())
            } else if self.o.max_traces > 0 {
                let j = self.rnd() as usize % k;
                if j < self.o.max_traces {
                    Some(j)
                } else {
                    None
                }
            } else {
                None
            };
            if let Some(s) = slot {
                let input = self.input_bytes(&st);
                let obs = st.observed.clone();
                let observed = obs.iter().map(|&e| self.eval(&st, e) as u64).collect();
                let t = Trace {
                    input,
                    observed,
                    end,
                };
                if s < self.rep.traces.len() {
                    self.rep.traces[s] = t;
                } else {
                    self.rep.traces.push(t);
                }
            }
        }
    }
}

/// A counting semaphore: one byte in a pipe per free slot.
struct Tokens {
    r: i32,
    w: i32,
}
impl Tokens {
    fn own(jobs: usize) -> Self {
        let mut fd = [-1i32; 2];
        unsafe { pipe2(fd.as_mut_ptr(), 0o4000) };
        let t = Tokens { r: fd[0], w: fd[1] };
        for _ in 1..jobs {
            t.give();
        }
        t
    }
    fn open(path: &str) -> Result<Self, String> {
        let c = std::ffi::CString::new(path).map_err(|e| e.to_string())?;
        let fd = unsafe { open(c.as_ptr(), 2 | 0o4000) };
        if fd < 0 {
            return Err(format!("cannot open {}", path));
        }
        Ok(Tokens { r: fd, w: fd })
    }
    fn take(&self) -> bool {
        let mut b = 0u8;
        unsafe { read(self.r, &mut b, 1) == 1 }
    }
    fn wait(&self) {
        while !self.take() {
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
    }
    fn give(&self) {
        unsafe { write(self.w, &1u8, 1) };
    }
}

extern "C" {
    fn pipe2(fd: *mut i32, flags: i32) -> i32;
    fn open(path: *const std::os::raw::c_char, flags: i32, ...) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
}
