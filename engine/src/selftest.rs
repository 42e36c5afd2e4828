//! Random differential test of the expression rewriter and of the z3 translation: every
//! constructor result must evaluate like the unsimplified operation, and z3 must agree.

use crate::pool::*;
use crate::z3::*;

pub fn run(n: u64) -> i32 {
    let mut seed = 0x1234_5678_9abc_def1u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    let mut bad = 0;
    let mut z3n = 0;
    let mut nrefuted = 0;
    let mut ranges = Default::default();
    let mut z = Z3::new().expect("z3");
    z.timeout_ms = 5000;
    for round in 0..n / 40 {
        let mut p = Pool::new();
        let ws = [1u16, 8, 16, 32, 64];
        let mut vals: Vec<(E, u128)> = vec![];
        let mut model = vec![];
        for i in 0..6 {
            let w = ws[i % 5];
            let e = p.var("x", w);
            let r = rnd();
            let v = match r % 4 {
                0 => rnd() as u128,
                1 => (rnd() % 4) as u128,
                2 => mask(w) - (rnd() % 3) as u128 % mask(w),
                _ => 1u128 << (rnd() % w as u64),
            } & mask(w);
            model.push(v as u64);
            vals.push((e, v));
        }
        for &w in &ws {
            for k in [0u128, 1, 2, 7, 0x80, mask(w), 0xff00] {
                let e = p.c(w, k);
                vals.push((e, k & mask(w)));
            }
        }
        for step in 0..40 {
            let pick = |vals: &Vec<(E, u128)>, r: u64| vals[r as usize % vals.len()];
            let (a, av) = pick(&vals, rnd());
            let wa = p.w(a);
            let same: Vec<(E, u128)> = vals.iter().copied().filter(|v| p.w(v.0) == wa).collect();
            let (b, bv) = same[rnd() as usize % same.len()];
            let ops = [
                Op::Add,
                Op::Sub,
                Op::Mul,
                Op::And,
                Op::Or,
                Op::Xor,
                Op::Shl,
                Op::LShr,
                Op::AShr,
                Op::UDiv,
                Op::URem,
                Op::SDiv,
                Op::SRem,
            ];
            let mut what = String::new();
            let (e, v) = match rnd() % 12 {
                0..=4 => {
                    let op = ops[rnd() as usize % ops.len()];
                    what = format!("{:?} {} , {}", op, p.show(a, 5), p.show(b, 5));
                    (p.bin(op, a, b), apply(op, wa, wa, av, bv, 0, 0))
                }
                5 => (p.eq(a, b), (av == bv) as u128),
                6 => (p.ult(a, b), (av < bv) as u128),
                7 => (p.slt(a, b), (sx(av, wa) < sx(bv, wa)) as u128),
                8 => {
                    let bools: Vec<(E, u128)> =
                        vals.iter().copied().filter(|v| p.w(v.0) == 1).collect();
                    let (c, cv) = bools[rnd() as usize % bools.len()];
                    (p.ite(c, a, b), if cv != 0 { av } else { bv })
                }
                9 => {
                    let t = ws[rnd() as usize % 5];
                    if t >= wa {
                        if rnd() % 2 == 0 {
                            (p.zext(a, t), av)
                        } else {
                            (p.sext(a, t), sx(av, wa) as u128 & mask(t))
                        }
                    } else {
                        let lo = (rnd() % (wa - t + 1) as u64) as u16;
                        (p.extract(a, lo, t), (av >> lo) & mask(t))
                    }
                }
                10 => (p.not(a), !av & mask(wa)),
                _ => {
                    if wa <= 32 && wa >= 8 {
                        (p.concat(a, b), (av << wa) | bv)
                    } else {
                        (p.not(a), !av & mask(wa))
                    }
                }
            };
            let got = p.eval(e, &model, 1 + round * 100 + step);
            if got != v {
                bad += 1;
                if bad < 10 {
                    eprintln!(
                        "MISMATCH got {:#x} want {:#x}: {} FROM {}",
                        got,
                        v,
                        p.show(e, 6),
                        what
                    );
                }
            }
            let (t, l) = (p.tz(e), p.lz(e));
            if v != 0 && (v & mask(t) != 0 || v >> (p.w(e) - l) != 0) {
                bad += 1;
                eprintln!("tz/lz wrong for {}", p.show(e, 6));
            }
            vals.push((e, v));
        }
        // intervals: no conjunction of facts that hold under the model may be refuted
        {
            let mut conj: Vec<E> = vec![];
            for _ in 0..6 {
                let bools: Vec<(E, u128)> = vals
                    .iter()
                    .copied()
                    .filter(|v| p.w(v.0) == 1 && p.cval(v.0).is_none())
                    .collect();
                if rnd() % 3 == 0 && !bools.is_empty() {
                    let (b, bv) = bools[rnd() as usize % bools.len()];
                    conj.push(if bv == 1 { b } else { p.not(b) });
                } else {
                    let (a, av) = vals[rnd() as usize % vals.len()];
                    let w = p.w(a);
                    let same: Vec<(E, u128)> =
                        vals.iter().copied().filter(|v| p.w(v.0) == w).collect();
                    let (b, bv) = same[rnd() as usize % same.len()];
                    let q = match rnd() % 3 {
                        0 => {
                            let q = p.eq(a, b);
                            if av == bv {
                                q
                            } else {
                                p.not(q)
                            }
                        }
                        _ => {
                            let q = p.ult(a, b);
                            if av < bv {
                                q
                            } else {
                                p.not(q)
                            }
                        }
                    };
                    conj.push(q);
                }
            }
            conj.retain(|&c| p.cval(c).is_none());
            if crate::solve::refuted(&mut p, &conj, &mut ranges) {
                bad += 1;
                eprintln!("interval reasoning refuted a satisfiable conjunction");
            }
            nrefuted += 1;
        }
        let mut gen = 1 + round * 100 + 60;
        // linear normalisation and signed bounds
        for _ in 0..8 {
            let (a, _) = vals[rnd() as usize % vals.len()];
            let (b, _) = vals[rnd() as usize % vals.len()];
            let (c, _) = vals[rnd() as usize % vals.len()];
            let w = [p.w(a), p.w(b), p.w(c), 1 + (rnd() % 32) as u16]
                .into_iter()
                .max()
                .unwrap();
            if w > 64 {
                continue;
            }
            let mut wide = |p: &mut Pool, e: E| match rnd() % 3 {
                0 => p.zext(e, w),
                1 => p.sext(e, w),
                _ => {
                    let x = p.zext(e, w);
                    let k = p.c(w, (rnd() % 9) as u128);
                    p.bin(Op::Mul, x, k)
                }
            };
            let (xa, xb, xc) = (wide(&mut p, a), wide(&mut p, b), wide(&mut p, c));
            let t = p.bin(Op::Add, xa, xb);
            let x = p.bin(Op::Sub, t, xc);
            let rb = wide(&mut p, b);
            let y = match rnd() % 3 {
                0 => {
                    let t = p.bin(Op::Sub, xb, xc);
                    p.bin(Op::Add, t, xa)
                }
                1 => rb,
                _ => {
                    let t = p.bin(Op::Sub, xc, xa);
                    p.bin(Op::Sub, xb, t)
                }
            };
            let facts: Vec<E> = vals
                .iter()
                .filter(|v| p.w(v.0) == 1 && v.1 == 1)
                .map(|v| v.0)
                .collect();
            let (q, _) = p.eq_cancel(x, y, &|c| facts.contains(&c));
            gen += 1;
            let (vx, vy) = (p.eval(x, &model, gen), p.eval(y, &model, gen));
            if (p.eval(q, &model, gen) == 1) != (vx == vy) {
                bad += 1;
                eprintln!(
                    "linear form wrong for {} and {}",
                    p.show(x, 6),
                    p.show(y, 6)
                );
            }
            let r = p.srange(x);
            let v = crate::pool::sx(vx, w);
            if v < r.0 || v > r.1 {
                bad += 1;
                eprintln!("signed bounds wrong for {}", p.show(x, 6));
            }
        }
        // z3 agrees on the value of the last expressions
        if round % 20 == 0 {
            let mut z2 = Z3::new().expect("z3");
            let fixed: Vec<E> = (0..6)
                .map(|i| {
                    let x = p.var_by_index(i);
                    let w = p.w(x);
                    let k = p.c(w, model[i] as u128);
                    p.eq(x, k)
                })
                .collect();
            for &(e, v) in vals.iter().rev().take(12) {
                let k = p.c(p.w(e), v);
                let q = p.eq(e, k);
                let nq = p.not(q);
                if p.cval(nq).is_some() {
                    continue;
                }
                let mut conj = fixed.clone();
                conj.push(nq);
                z3n += 1;
                match z2.check(&p, &conj, &[], false) {
                    Res::Unsat => {}
                    _ => {
                        bad += 1;
                        eprintln!("z3 disagrees on {}", p.show(e, 6));
                    }
                }
            }
        }
    }
    // floating point: native and z3 agree on random bit patterns
    let mut p = Pool::new();
    for _ in 0..120 {
        for w in [32u16, 64] {
            let (mut a, mut b) = (rnd() as u128 & mask(w), rnd() as u128 & mask(w));
            if rnd() % 3 == 0 {
                a = if w == 32 {
                    ((rnd() % 1000) as f32).to_bits() as u128
                } else {
                    ((rnd() % 1000) as f64).to_bits() as u128
                };
            }
            if rnd() % 3 == 0 {
                b = if w == 32 {
                    0.5f32.to_bits() as u128
                } else {
                    3f64.to_bits() as u128
                };
            }
            let x = p.var("f", w);
            let y = p.var("g", w);
            let (ka, kb) = (p.c(w, a), p.c(w, b));
            let (ea, eb) = (p.eq(x, ka), p.eq(y, kb));
            for op in [
                Op::FAdd,
                Op::FMul,
                Op::FSub,
                Op::FDiv,
                Op::FEq,
                Op::FLt,
                Op::FLe,
                Op::FUno,
                Op::FCeil,
            ] {
                let un = matches!(op, Op::FUno | Op::FCeil);
                let wr = if matches!(op, Op::FEq | Op::FLt | Op::FLe | Op::FUno) {
                    1
                } else {
                    w
                };
                if op == Op::FDiv && rnd() % 4 != 0 {
                    continue;
                }
                let e = p.fop(op, wr, x, if un { NONE } else { y }, 0);
                let v = apply(op, wr, w, a, b, 0, 0);
                let half = p.fop(
                    op,
                    wr,
                    if rnd() % 2 == 0 { ka } else { x },
                    if un { NONE } else { kb },
                    0,
                );
                if let (Some(h), Op::FAdd | Op::FMul) = (p.cval(half), op) {
                    let nan = |v: u128| {
                        if w == 32 {
                            f32::from_bits(v as u32).is_nan()
                        } else {
                            f64::from_bits(v as u64).is_nan()
                        }
                    };
                    if h != v && !(nan(h) && nan(v)) {
                        bad += 1;
                        eprintln!("fop folds wrong");
                    }
                }
                if wr != 1 {
                    let nan = if w == 32 {
                        f32::from_bits(v as u32).is_nan()
                    } else {
                        f64::from_bits(v as u64).is_nan()
                    };
                    if nan {
                        continue;
                    }
                }
                let k = p.c(wr, v);
                let q = p.eq(e, k);
                let nq = p.not(q);
                z3n += 1;
                match z.check(&p, &[ea, eb, nq], &[], true) {
                    Res::Unsat => {}
                    Res::Unknown => eprintln!("z3 unknown on {:?}", op),
                    _ => {
                        bad += 1;
                        eprintln!("z3 fp disagrees on {:?} {:#x} {:#x}", op, a, b);
                    }
                }
            }
        }
    }
    println!(
        "selftest: {} expressions, {} z3 queries, {} interval checks, {} disagreements",
        n, z3n, nrefuted, bad
    );
    (bad != 0) as i32
}
