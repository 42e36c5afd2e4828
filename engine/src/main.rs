#![allow(dead_code)]
mod exec;
mod ir;
mod pool;
mod report;
mod selftest;
mod solve;
mod z3;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("selftest") {
        let n = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(20000);
        std::process::exit(selftest::run(n));
    }
    // lsx MODULE.ll HARNESS[:ARG] OUT.json [--opt value]...
    if args.len() < 4 {
        eprintln!("usage: lsx MODULE.ll HARNESS[:ARG] OUT.json [--fuel N] [--paths N] [--time S] [--alloc N] [--traces N] [--timeout MS] [--jobs N] [--input HEX] [-v]");
        std::process::exit(2);
    }
    let (name, arg) = match args[2].split_once(':') {
        Some((n, a)) => (n.to_string(), a.parse::<u64>().expect("arg")),
        None => (args[2].clone(), 0),
    };
    let mut o = exec::Opts {
        fuel: 3_000_000,
        max_paths: u64::MAX,
        time: 600.0,
        alloc_limit: 1 << 20,
        max_traces: 8,
        verbose: false,
        jobs: 1,
        tokens: String::new(),
        fixed_input: None,
    };
    let mut timeout = 20_000u32;
    let mut i = 4;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--fuel" => o.fuel = v.parse().unwrap(),
            "--paths" => o.max_paths = v.parse().unwrap(),
            "--time" => o.time = v.parse().unwrap(),
            "--alloc" => o.alloc_limit = v.parse().unwrap(),
            "--traces" => o.max_traces = v.parse().unwrap(),
            "--timeout" => timeout = v.parse().unwrap(),
            "--tokens" => o.tokens = v,
            "--jobs" => o.jobs = v.parse().unwrap(),
            "--input" => {
                o.fixed_input = Some(
                    (0..v.len() / 2)
                        .map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap())
                        .collect(),
                )
            }
            "-v" => {
                o.verbose = true;
                i -= 1;
            }
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let m = match ir::Module::load(&args[1]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot load module: {}", e);
            std::process::exit(2);
        }
    };
    let mut z = match z3::Z3::new() {
        Ok(z) => z,
        Err(e) => {
            eprintln!("z3: {}", e);
            std::process::exit(2);
        }
    };
    z.timeout_ms = timeout;
    let ver = z.version.clone();
    let mut ex = exec::Exec::new(m, z, o);
    if let Err(e) = ex.run(&name, arg) {
        eprintln!("{}", e);
        std::process::exit(2);
    }
    if ex.o.verbose {
        eprintln!(
            "solver: {} queries, {:.2}s encode, {:.2}s check",
            ex.z3.queries, ex.z3.t_assert, ex.z3.t_check
        );
    }
    std::fs::write(&args[3], report::json(&ex.rep, &name, arg, &ver)).expect("write report");
}
