//! Joining the two sides of a branch on a floating-point condition instead of forking: both sides
//! run until they reach the same block with no other decision in between, and what they left
//! different (registers live there, memory) becomes a choice on the condition.

use super::*;

const STEPS: u64 = 120;
const NEST: u32 = 3;

/// Registers live at the start of each block (after its phis).
pub type Live = Rc<Vec<Vec<u64>>>;

pub fn liveness(f: &Func) -> Vec<Vec<u64>> {
    let words = (f.nregs as usize + 63) / 64;
    let set = |s: &mut Vec<u64>, r: u32| s[r as usize / 64] |= 1 << (r % 64);
    let nb = f.blocks.len();
    let mut gen = vec![vec![0u64; words]; nb];
    let mut def = vec![vec![0u64; words]; nb];
    let mut succ: Vec<Vec<usize>> = vec![vec![]; nb];
    for (i, b) in f.blocks.iter().enumerate() {
        for inst in &b.insts {
            let mut used = vec![];
            let mut defd = None;
            inst.regs(&mut |r| used.push(r), &mut defd, &mut |t| {
                succ[i].push(t as usize)
            });
            for r in used {
                if def[i][r as usize / 64] >> (r % 64) & 1 == 0 {
                    set(&mut gen[i], r);
                }
            }
            if let Some(d) = defd {
                set(&mut def[i], d);
            }
        }
    }
    let mut live = gen.clone();
    loop {
        let mut changed = false;
        for i in (0..nb).rev() {
            let mut out = vec![0u64; words];
            for &s in &succ[i] {
                let mut x = live[s].clone();
                for p in &f.blocks[s].phis {
                    x[p.dst as usize / 64] &= !(1 << (p.dst % 64));
                }
                for p in &f.blocks[s].phis {
                    for (from, o) in &p.from {
                        if let (true, Opd::R(r)) = (*from as usize == i, o) {
                            set(&mut x, *r);
                        }
                    }
                }
                for k in 0..words {
                    out[k] |= x[k];
                }
            }
            for k in 0..words {
                let v = gen[i][k] | out[k] & !def[i][k];
                if v & !live[i][k] != 0 {
                    live[i][k] |= v;
                    changed = true;
                }
            }
        }
        if !changed {
            return live;
        }
    }
}

impl Exec {
    /// Runs `st` without decisions until it has entered `stop` blocks, or as far as it gets;
    /// returns the blocks entered at its depth.
    fn trial(&mut self, st: &mut State, stop: usize) -> Vec<(u32, u64)> {
        let depth = st.frames.len();
        let s0 = st.steps;
        let mut seen = vec![(st.frames[depth - 1].block, 0)];
        while seen.len() < stop && st.steps - s0 < STEPS {
            self.trial_failed = false;
            if self.step(st).is_err() || self.trial_failed || st.frames.len() < depth {
                break;
            }
            let f = &st.frames[depth - 1];
            if st.frames.len() == depth && f.ip == 0 {
                seen.push((f.block, st.steps - s0));
            }
        }
        seen
    }

    /// Both sides of the branch on `c`, as one state; None when they do not meet.
    pub(super) fn join(&mut self, st: &State, c: E, a: u32, b: u32) -> Option<State> {
        if self.trials >= NEST {
            return None;
        }
        let work = self.work.len();
        self.trials += 1;
        let r = self.join_sides(st, c, a, b);
        self.trials -= 1;
        self.trial_failed = false;
        debug_assert_eq!(self.work.len(), work);
        r
    }

    fn join_sides(&mut self, st: &State, c: E, a: u32, b: u32) -> Option<State> {
        let mut sa = st.clone();
        self.goto(&mut sa, a).ok()?;
        let mut sb = st.clone();
        self.goto(&mut sb, b).ok()?;
        let ta = self.trial(&mut sa.clone(), usize::MAX);
        let tb = self.trial(&mut sb.clone(), usize::MAX);
        let mut meets: Vec<(u64, usize, usize)> = vec![];
        for (i, x) in ta.iter().enumerate() {
            for (j, y) in tb.iter().enumerate() {
                if x.0 == y.0 {
                    meets.push((x.1 + y.1, i, j));
                }
            }
        }
        meets.sort();
        for &(_, i, j) in meets.iter().take(4) {
            let (mut xa, mut xb) = (sa.clone(), sb.clone());
            self.trial(&mut xa, i + 1);
            self.trial(&mut xb, j + 1);
            if let Some(m) = self.joined(c, xa, &xb) {
                return Some(m);
            }
        }
        None
    }

    fn joined(&mut self, c: E, mut a: State, b: &State) -> Option<State> {
        let (fa, fb) = (a.frames.last()?, b.frames.last()?);
        if a.frames.len() != b.frames.len()
            || (fa.block, fa.ip) != (fb.block, fb.ip)
            || fa.allocas != fb.allocas
            || a.next != b.next
            || a.pc.len() != b.pc.len()
            || a.fixed.len() != b.fixed.len()
            || a.inputs.len() != b.inputs.len()
            || a.observed.len() != b.observed.len()
            || a.covers.len() != b.covers.len()
            || !Rc::ptr_eq(&a.differ, &b.differ)
            || !Rc::ptr_eq(&a.model, &b.model)
            || !Rc::ptr_eq(&a.files, &b.files)
            || a.fds != b.fds
            || a.errno != b.errno
            || a.mem.len() != b.mem.len()
        {
            return None;
        }
        let f = fa.func.clone();
        let live = match self.live.get(&f.id) {
            Some(l) => l.clone(),
            None => {
                let l: Live = Rc::new(liveness(&f));
                self.live.insert(f.id, l.clone());
                l
            }
        };
        let live = &live[fa.block as usize];
        let mut regs = vec![];
        for r in 0..f.nregs {
            if live[r as usize / 64] >> (r % 64) & 1 != 0 {
                let (x, y) = (&fa.regs[r as usize], &fb.regs[r as usize]);
                let v = self.choice(c, x, y)?;
                regs.push((r, v));
            }
        }
        let mut mem = vec![];
        for ((ka, oa), (kb, ob)) in a.mem.iter().zip(&b.mem) {
            if ka != kb {
                return None;
            }
            if Rc::ptr_eq(oa, ob) {
                continue;
            }
            if (oa.ro, oa.cap, oa.fill, oa.slen, oa.known)
                != (ob.ro, ob.cap, ob.fill, ob.slen, ob.known)
            {
                return None;
            }
            let n = oa.data.len().max(ob.data.len());
            let at = |o: &Obj, i: usize| *o.data.get(i).unwrap_or(&o.fill);
            let mut o = (**oa).clone();
            o.data = (0..n).map(|i| at(oa, i)).collect();
            let mut i = 0;
            while i < n {
                if at(oa, i) == at(ob, i) {
                    i += 1;
                    continue;
                }
                // the word written, so that it is read back whole
                let differs = |k: usize| at(oa, k) != at(ob, k);
                let i8 = i / 8 * 8;
                let i4 = i / 4 * 4;
                let (lo, len) = if i8 + 8 <= n
                    && (i8..i8 + 4).any(differs)
                    && (i8 + 4..i8 + 8).any(differs)
                    && (self.whole(oa, i8) || self.whole(ob, i8))
                {
                    (i8, 8)
                } else if i4 + 4 <= n {
                    (i4, 4)
                } else {
                    (i, 1)
                };
                let mut word = |x: &mut Exec, o: &Obj| {
                    let mut acc = x.byte(at(o, lo));
                    for k in 1..len {
                        let h = x.byte(at(o, lo + k));
                        acc = x.pool.concat(h, acc);
                    }
                    acc
                };
                let (x, y) = (word(self, oa), word(self, ob));
                let v = self.pool.ite(c, x, y);
                for k in 0..len {
                    let e = self.pool.extract(v, 8 * k as u16, 8);
                    o.data[lo + k] = match self.pool.cval(e) {
                        Some(k) => k as u32,
                        None => e + 256,
                    };
                }
                i = lo + len;
            }
            mem.push((*ka, Rc::new(o)));
        }
        for (k, o) in mem {
            a.mem.insert(k, o);
        }
        let fr = a.frames.last_mut().unwrap();
        for (r, v) in regs {
            fr.regs[r as usize] = v;
        }
        a.steps = a.steps.max(b.steps);
        a.allocd = a.allocd.max(b.allocd);
        Some(a)
    }

    fn byte(&mut self, d: u32) -> E {
        if d < 256 {
            self.pool.c(8, d as u128)
        } else {
            d - 256
        }
    }

    /// Whether the eight bytes at `i` are one value, not two.
    fn whole(&mut self, o: &Obj, i: usize) -> bool {
        let mut acc = None;
        for k in 0..8 {
            let d = *o.data.get(i + k).unwrap_or(&o.fill);
            let d = self.byte(d);
            acc = Some(match acc {
                None => d,
                Some(a) => self.pool.concat(d, a),
            });
        }
        let e = acc.unwrap();
        self.pool.n(e).op != Op::Concat
    }

    fn choice(&mut self, c: E, x: &Val, y: &Val) -> Option<Val> {
        Some(match (x, y) {
            (Val::C(i), Val::C(j)) if i == j => Val::C(*i),
            (Val::C(_), Val::C(_)) => return None,
            (Val::S(i), Val::S(j)) if i == j => Val::S(*i),
            (Val::S(e), _) | (_, Val::S(e)) => {
                let w = self.pool.w(*e);
                if matches!(x, Val::A(_)) || matches!(y, Val::A(_)) {
                    return None;
                }
                let (i, j) = (self.to_e(x, w), self.to_e(y, w));
                let v = self.pool.ite(c, i, j);
                match self.pool.cval(v) {
                    Some(k) if w <= 64 => Val::C(k as u64),
                    _ => Val::S(v),
                }
            }
            (Val::A(i), Val::A(j)) => {
                if i.len() != j.len() {
                    return None;
                }
                let mut out = vec![];
                for (x, y) in i.iter().zip(j.iter()) {
                    out.push(self.choice(c, x, y)?);
                }
                Val::A(out.into())
            }
            _ => return None,
        })
    }
}
