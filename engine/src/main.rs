//! Symbolic execution of LLVM IR produced by rustc, deciding checks with an SMT solver.
//!
//! usage: symex [--seconds N] [--paths N] [--solver CMD] [--solver-ms N] [--dump DIR] NS:FILE.ll...
//! Reads jobs from standard input, one per line: entry parameters... [= concrete inputs...],
//! and writes one line of JSON for each.

mod exec;
mod expr;
mod form;
mod fp;
mod ir;
mod load;
mod selftest;
mod smt;

use std::io::{BufRead, Write};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    // deep expressions are handled iteratively, but give recursion some room
    std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap().join().unwrap();
}

fn run() {
    let mut args = std::env::args().skip(1);
    let mut seconds = 600.0;
    let mut paths = 1_000_000;
    let mut solver_cmd = "z3-new".to_string();
    let mut solver_ms = 60_000;
    let mut dump = None;
    let mut values = 600;
    let mut files = vec![];
    while let Some(a) = args.next() {
        match a.as_str() {
            "--seconds" => seconds = args.next().unwrap().parse().unwrap(),
            "--paths" => paths = args.next().unwrap().parse().unwrap(),
            "--values" => values = args.next().unwrap().parse().unwrap(),
            "--solver" => solver_cmd = args.next().unwrap(),
            "--solver-ms" => solver_ms = args.next().unwrap().parse().unwrap(),
            "--dump" => dump = args.next(),
            "--selftest" => {
                let n: u64 = args.next().unwrap().parse().unwrap();
                std::process::exit(selftest::run(n));
            }
            _ => files.push(a),
        }
    }
    let mut mods = vec![];
    for f in files {
        let (ns, path) = f.split_once(':').expect("NS:FILE");
        let ns: usize = ns.parse().unwrap();
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
            eprintln!("{}: {}", path, e);
            std::process::exit(3)
        });
        let base = path.rsplit('/').next().unwrap();
        let library = ["core-", "alloc-", "std-"].iter().any(|x| base.starts_with(x));
        match ir::parse(&text, library) {
            Ok(m) => mods.push((ns, m)),
            Err(e) => {
                eprintln!("{}: {}", path, e);
                std::process::exit(3)
            }
        }
    }
    let prog = load::link(mods);
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let (l, conc) = match line.split_once('=') {
            Some((a, b)) => (a.to_string(), Some(b.split_whitespace().map(|x| x.parse::<u64>().unwrap()).collect::<Vec<u64>>())),
            None => (line.clone(), None),
        };
        let mut w = l.split_whitespace();
        let entry = match w.next() {
            Some(e) => e.to_string(),
            None => continue,
        };
        let mut sec = seconds;
        let mut params = vec![];
        let mut raw = false;
        for x in w {
            if let Some(s) = x.strip_prefix("seconds:") {
                sec = s.parse().unwrap();
            } else if x == "plain" {
                raw = true;
            } else {
                params.push(x.parse::<i64>().map(|v| v as u64).or_else(|_| x.parse::<u64>()).unwrap());
            }
        }
        let mut solver = smt::Solver::new(&solver_cmd, solver_ms);
        solver.dump = dump.clone();
        let limits = exec::Limits { seconds: sec, paths, values, violations: 3 };
        let mut ex = exec::Exec::new(&prog, solver, limits);
        ex.params = params;
        ex.ctx.raw = raw;
        ex.concrete = conc;
        let err = ex.run(&entry).err();
        let mut r = std::mem::take(&mut ex.report);
        if let Some(e) = err {
            r.unsupported.insert(e, 1);
        }
        for (p, n) in &r.fork_places {
            eprintln!("{} forks: {}", n, p);
        }
        let st = &ex.solver.stats;
        let list = |v: Vec<String>| format!("[{}]", v.join(","));
        let viol = list(
            r.violations
                .iter()
                .map(|v| {
                    format!(
                        "{{\"kind\":{},\"id\":{},\"message\":{},\"place\":{},\"inputs\":[{}]}}",
                        js(&v.kind),
                        v.id,
                        js(&v.message),
                        js(&v.place),
                        v.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                    )
                })
                .collect(),
        );
        let uns = format!(
            "{{{}}}",
            r.unsupported.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
        );
        let reached =
            format!("{{{}}}", r.reached.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
        let funcs = list(r.functions.iter().map(|f| js(f)).collect());
        let outs = list(
            r.samples
                .iter()
                .map(|(i, o)| {
                    format!(
                        "{{\"inputs\":[{}],\"out\":{}}}",
                        i.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                        js(&o.iter().map(|b| format!("{:02x}", b)).collect::<String>())
                    )
                })
                .collect(),
        );
        let interrupted = match &r.interrupted {
            None => "null".to_string(),
            Some(v) => list(v.iter().map(|x| x.to_string()).collect()),
        };
        let s = format!(
            "{{\"job\":{},\"seconds\":{:.3},\"paths\":{},\"pruned\":{},\"insts\":{},\"forks\":{},\"branches\":{},\"branches_simplified\":{},\"checks\":{},\"checks_simplified\":{},\"checks_solver\":{},\"checks_linear\":{},\"memory_checks\":{},\"expected_panics\":{},\"max_inputs\":{},\"nodes\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"lra\":{},\"lra_proved\":{},\"escalated\":{},\"solver_seconds\":{:.3},\"slowest_query\":{:.3},\"reached\":{},\"violations\":{},\"unsupported\":{},\"functions\":{},\"samples\":{},\"interrupted\":{}}}",
            js(&line), r.seconds, r.paths, r.pruned, r.insts, r.forks, r.branches, r.branches_simplified,
            r.checks, r.checks_simplified, r.checks_solver, r.checks_linear, r.memory_checks, r.expected_panics,
            r.max_inputs, ex.ctx.nodes.len(), st.queries, st.sat, st.unsat, st.unknown, st.cached, st.lra,
            st.lra_proved, st.escalated, st.seconds, st.slowest, reached, viol, uns, funcs, outs, interrupted
        );
        let mut o = std::io::stdout().lock();
        writeln!(o, "{}", s).unwrap();
        o.flush().unwrap();
    }
}
