//! Serialisation of reports: line format between worker processes, JSON for the driver.

use crate::exec::*;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
fn clean(s: &str) -> String {
    s.replace(['\t', '\n'], " ")
}

pub fn to_lines(r: &Report) -> String {
    let mut o = String::new();
    o += &format!(
        "n\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
        r.paths,
        r.done,
        r.infeasible,
        r.steps,
        r.checks,
        r.checks_trivial,
        r.checks_solver,
        r.branch_queries,
        r.cache_hits,
        r.queries,
        r.unknown,
        r.solver_time,
        r.solver_max,
        r.max_depth,
        r.interval,
        r.inverted
    );
    for (k, v) in &r.unknown_sites {
        o += &format!("u\t{}\t{}\n", clean(k), v);
    }
    for (k, v) in &r.covers {
        o += &format!("c\t{}\t{}\n", k, v);
    }
    for (k, v) in &r.cuts {
        o += &format!("t\t{}\t{}\n", clean(k), v);
    }
    for (k, v) in &r.internal {
        o += &format!("i\t{}\t{}\n", clean(k), v);
    }
    for f in &r.fns {
        o += &format!("f\t{}\n", f);
    }
    for f in &r.incomplete {
        o += &format!("x\t{}\n", clean(f));
    }
    for (k, v) in &r.violations {
        o += &format!(
            "v\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
            clean(k),
            clean(&v.kind),
            clean(&v.msg),
            clean(&v.site),
            v.stack.join(" < "),
            hex(&v.input),
            v.count
        );
    }
    for t in &r.traces {
        let ob: Vec<String> = t.observed.iter().map(|x| x.to_string()).collect();
        o += &format!("r\t{}\t{}\t{}\n", hex(&t.input), ob.join(","), t.end);
    }
    o
}

pub fn merge(r: &mut Report, s: &str) {
    for l in s.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        match p[0] {
            "n" => {
                let g = |i: usize| p[i].parse::<u64>().unwrap();
                r.paths += g(1);
                r.done += g(2);
                r.infeasible += g(3);
                r.steps += g(4);
                r.checks += g(5);
                r.checks_trivial += g(6);
                r.checks_solver += g(7);
                r.branch_queries += g(8);
                r.cache_hits += g(9);
                r.queries += g(10);
                r.unknown += g(11);
                r.solver_time += p[12].parse::<f64>().unwrap();
                r.solver_max = r.solver_max.max(p[13].parse::<f64>().unwrap());
                r.max_depth = r.max_depth.max(g(14));
                r.interval += g(15);
                r.inverted += g(16);
            }
            "u" => *r.unknown_sites.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
            "c" => {
                *r.covers.entry(p[1].parse().unwrap()).or_insert(0) += p[2].parse::<u64>().unwrap()
            }
            "t" => *r.cuts.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
            "i" => *r.internal.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
            "f" => {
                r.fns.insert(p[1].into());
            }
            "x" => r.incomplete.push(p[1].into()),
            "v" => {
                let n: u64 = p[7].parse().unwrap();
                let e = r
                    .violations
                    .entry(p[1].into())
                    .or_insert_with(|| Violation {
                        kind: p[2].into(),
                        msg: p[3].into(),
                        site: p[4].into(),
                        stack: p[5].split(" < ").map(|x| x.to_string()).collect(),
                        input: unhex(p[6]),
                        count: 0,
                    });
                e.count += n;
            }
            "r" => r.traces.push(Trace {
                input: unhex(p[1]),
                observed: p[2]
                    .split(',')
                    .filter(|x| !x.is_empty())
                    .map(|x| x.parse().unwrap())
                    .collect(),
                end: p[3].into(),
            }),
            _ => {}
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 || c as u32 > 126 => o += &format!("\\u{:04x}", c as u32 & 0xffff),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn json(r: &Report, name: &str, arg: u64, z3: &str) -> String {
    let map = |m: &std::collections::BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        format!("{{{}}}", v.join(","))
    };
    let cov: Vec<String> = r
        .covers
        .iter()
        .map(|(k, v)| format!("\"{}\":{}", k, v))
        .collect();
    let vio: Vec<String> = r
        .violations
        .values()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"site\":{},\"stack\":[{}],\"input\":\"{}\",\"count\":{}}}",
                js(&v.kind),
                js(&v.msg),
                js(&v.site),
                v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                hex(&v.input),
                v.count
            )
        })
        .collect();
    let tr: Vec<String> = r
        .traces
        .iter()
        .map(|t| {
            format!(
                "{{\"input\":\"{}\",\"observed\":[{}],\"end\":{}}}",
                hex(&t.input),
                t.observed
                    .iter()
                    .map(|x| x.to_string())
                    .collect::<Vec<_>>()
                    .join(","),
                js(&t.end)
            )
        })
        .collect();
    format!(
        "{{\"harness\":{},\"arg\":{},\"z3\":{},\"paths\":{},\"done\":{},\"infeasible\":{},\"steps\":{},\"checks\":{},\"checks_trivial\":{},\"checks_solver\":{},\"branches\":{},\"cache_hits\":{},\"interval_unsat\":{},\"inverted_sat\":{},\"queries\":{},\"unknown\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"wall_s\":{:.3},\"max_depth\":{},\"covers\":{{{}}},\"unknown_sites\":{},\"cuts\":{},\"internal\":{},\"incomplete\":[{}],\"functions\":[{}],\"violations\":[{}],\"traces\":[{}]}}",
        js(name), arg, js(z3), r.paths, r.done, r.infeasible, r.steps, r.checks, r.checks_trivial, r.checks_solver,
        r.branch_queries, r.cache_hits, r.interval, r.inverted, r.queries, r.unknown, r.solver_time, r.solver_max, r.wall, r.max_depth,
        cov.join(","), map(&r.unknown_sites), map(&r.cuts), map(&r.internal),
        r.incomplete.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        r.fns.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        vio.join(","), tr.join(",")
    )
}
