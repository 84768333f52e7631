//! Solver processes (SMT-LIB over pipes).

use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Res {
    Sat(HashMap<u32, u64>),
    Unsat,
    Unknown,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: Receiver<String>,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn start(cmd: &[String]) -> Option<Proc> {
    let mut child = Command::new(&cmd[0])
        .args(&cmd[1..])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let inp = child.stdin.take()?;
    let mut out = BufReader::new(child.stdout.take()?);
    let (tx, rx) = channel();
    std::thread::spawn(move || loop {
        let mut l = String::new();
        match out.read_line(&mut l) {
            Ok(n) if n > 0 => {
                if tx.send(l.trim().to_string()).is_err() {
                    return;
                }
            }
            _ => return,
        }
    });
    Some(Proc { child, inp, out: rx })
}

#[derive(Default)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub model_hits: u64,
    pub seconds: f64,
    pub slowest: f64,
    pub escalated: u64,
    pub lra: u64,
    pub lra_proved: u64,
}

pub struct Solver {
    main: Option<Proc>,
    cmd: String,
    pub timeout_ms: u64,
    pub end: Option<Instant>,
    pub stats: Stats,
    cache: HashMap<Vec<Id>, Res>,
    pub dump: Option<String>,
}

impl Solver {
    pub fn new(cmd: &str, timeout_ms: u64) -> Solver {
        Solver { main: None, cmd: cmd.to_string(), timeout_ms, end: None, stats: Stats::default(), cache: HashMap::new(), dump: None }
    }

    /// what is left of a time limit
    fn left(&self, ms: u64) -> u64 {
        match self.end {
            Some(e) => ms.min(e.saturating_duration_since(Instant::now()).as_millis() as u64 + 200),
            None => ms,
        }
    }

    /// sends a script and returns the answer lines; the process is ended if it takes much longer than allowed
    fn talk(&mut self, script: &str, ms: u64) -> Option<Vec<String>> {
        if self.main.is_none() {
            self.main = start(&[self.cmd.clone(), "-in".into(), "-smt2".into()]);
        }
        let p = self.main.as_mut()?;
        let end = Instant::now() + Duration::from_millis(ms + ms / 4 + 1000);
        let r = (|| {
            p.inp.write_all(script.as_bytes()).ok()?;
            p.inp.write_all(b"\n(echo \"<<end>>\")\n").ok()?;
            p.inp.flush().ok()?;
            let mut lines = vec![];
            loop {
                let left = end.checked_duration_since(Instant::now())?;
                let l = p.out.recv_timeout(left).ok()?;
                if l == "<<end>>" {
                    return Some(lines);
                }
                lines.push(l);
            }
        })();
        if r.is_none() {
            self.main = None;
        }
        r
    }

    pub fn script(ctx: &mut Ctx, cs: &[Id]) -> (String, Vec<u32>) {
        let mut s = String::new();
        let mut vars: Vec<u32> = vec![];
        for &c in cs {
            vars.extend(ctx.varset(c).iter());
        }
        vars.sort_unstable();
        vars.dedup();
        for &v in &vars {
            let i = &ctx.vars[v as usize];
            s.push_str(&format!("(declare-const v{} (_ BitVec {}))\n", v, i.w));
            if i.signed {
                s.push_str(&format!(
                    "(assert (bvsge v{} (_ bv{} {})))(assert (bvsle v{} (_ bv{} {})))\n",
                    v,
                    i.lo & mask(i.w),
                    i.w,
                    v,
                    i.hi & mask(i.w),
                    i.w
                ));
            } else if i.lo != 0 || i.hi != mask(i.w) {
                s.push_str(&format!(
                    "(assert (bvuge v{} (_ bv{} {})))(assert (bvule v{} (_ bv{} {})))\n",
                    v, i.lo, i.w, v, i.hi, i.w
                ));
            }
        }
        let mut done: HashSet<Id> = HashSet::new();
        let leaf = |ctx: &Ctx, x: Id| matches!(ctx.n(x).k, K::Const(_) | K::Var(_));
        for &c in cs {
            let mut stack = vec![c];
            while let Some(&x) = stack.last() {
                if leaf(ctx, x) || done.contains(&x) {
                    stack.pop();
                    continue;
                }
                let miss: Vec<Id> = ctx.kids(x).into_iter().filter(|k| !leaf(ctx, *k) && !done.contains(k)).collect();
                if !miss.is_empty() {
                    stack.extend(miss);
                    continue;
                }
                let name = |k: Id| match ctx.n(k).k {
                    K::Const(v) => format!("(_ bv{} {})", v, ctx.w(k)),
                    K::Var(v) => format!("v{}", v),
                    _ => format!("e{}", k),
                };
                s.push_str(&format!("(define-fun e{} () (_ BitVec {}) {})\n", x, ctx.w(x), ctx.smt_op(x, &name)));
                done.insert(x);
                stack.pop();
            }
            match ctx.n(c).k {
                K::Const(v) => s.push_str(&format!("(assert {})\n", v != 0)),
                K::Var(v) => s.push_str(&format!("(assert (= v{} #b1))\n", v)),
                _ => s.push_str(&format!("(assert (= e{} #b1))\n", c)),
            }
        }
        (s, vars)
    }

    pub fn check(&mut self, ctx: &mut Ctx, cs: &[Id]) -> Res {
        let mut key: Vec<Id> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        key.retain(|&c| ctx.cv(c) != Some(1));
        if key.iter().any(|&c| ctx.cv(c) == Some(0)) {
            return Res::Unsat;
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cached += 1;
            return r.clone();
        }
        let t = Instant::now();
        let r = self.check_uncached(ctx, &key);
        let dt = t.elapsed().as_secs_f64();
        self.stats.seconds += dt;
        if dt > self.stats.slowest {
            self.stats.slowest = dt;
        }
        self.stats.queries += 1;
        match r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }

    fn check_uncached(&mut self, ctx: &mut Ctx, cs: &[Id]) -> Res {
        let (body, vars) = Solver::script(ctx, cs);
        let quick = self.left(self.timeout_ms.min(3000));
        if let Some(r) = self.ask(&body, &vars, quick, false) {
            return self.verify(ctx, cs, r);
        }
        self.stats.escalated += 1;
        // sum-of-products integer view first, then plain bit-blasting with more time
        if let Some(r) = self.ask_cvc5(&body, &vars, self.left(self.timeout_ms / 2)) {
            return self.verify(ctx, cs, r);
        }
        if let Some(r) = self.ask(&body, &vars, self.left(self.timeout_ms), true) {
            return self.verify(ctx, cs, r);
        }
        Res::Unknown
    }

    /// a satisfying assignment must satisfy our own reading of the constraints as well
    fn verify(&mut self, ctx: &mut Ctx, cs: &[Id], r: Res) -> Res {
        if let Res::Sat(m) = &r {
            let mut memo = HashMap::new();
            let f = |v: u32| m.get(&v).copied().unwrap_or(0);
            for &c in cs {
                if ctx.eval(c, &f, &mut memo) != 1 {
                    eprintln!("solver model does not satisfy the constraints");
                    return Res::Unknown;
                }
            }
        }
        r
    }

    fn ask(&mut self, body: &str, vars: &[u32], timeout: u64, tactic: bool) -> Option<Res> {
        let names: Vec<String> = vars.iter().map(|v| format!("v{}", v)).collect();
        let check = if tactic {
            format!("(check-sat-using (try-for (then simplify propagate-values solve-eqs elim-uncnstr simplify max-bv-sharing bit-blast sat) {}))", timeout)
        } else {
            "(check-sat)".to_string()
        };
        let get = if names.is_empty() { String::new() } else { format!("(get-value ({}))", names.join(" ")) };
        let script = format!("(reset)\n(set-option :timeout {})\n{}{}\n", timeout, body, check);
        if let Some(d) = &self.dump {
            let f = format!("{}/q{}.smt2", d, self.stats.queries);
            let _ = std::fs::write(f, format!("{}{}\n", script, get));
        }
        let lines = self.talk(&script, timeout)?;
        if lines.iter().any(|l| l.starts_with("(error")) {
            eprintln!("solver error: {:?}", lines);
            self.main = None;
            return None;
        }
        match lines.first().map(|s| s.as_str()) {
            Some("unsat") => Some(Res::Unsat),
            Some("sat") => {
                if names.is_empty() {
                    return Some(Res::Sat(HashMap::new()));
                }
                let l = self.talk(&get, 10000)?;
                parse_model(&l.join(" ")).map(Res::Sat)
            }
            _ => None,
        }
    }

    fn ask_cvc5(&mut self, body: &str, vars: &[u32], timeout: u64) -> Option<Res> {
        let p = start(&[
            "cvc5".into(),
            "--lang=smt2".into(),
            "--solve-bv-as-int=sum".into(),
            "--produce-models".into(),
            format!("--tlimit={}", timeout),
        ])?;
        let mut p = p;
        let names: Vec<String> = vars.iter().map(|v| format!("v{}", v)).collect();
        let script = format!("(set-logic QF_BV)\n{}(check-sat)\n(get-value ({}))\n(exit)\n", body, names.join(" "));
        p.inp.write_all(script.as_bytes()).ok()?;
        p.inp.flush().ok()?;
        let mut all = vec![];
        let end = Instant::now() + Duration::from_millis(timeout + 5000);
        while let Some(left) = end.checked_duration_since(Instant::now()) {
            match p.out.recv_timeout(left) {
                Ok(l) => all.push(l),
                Err(_) => break,
            }
        }
        match all.first().map(|s| s.as_str()) {
            Some("unsat") => Some(Res::Unsat),
            Some("sat") => parse_model(&all[1..].join(" ")).map(Res::Sat),
            _ => None,
        }
    }

    /// Whether an expression, with its recorded bounds and known bits, can differ from a text of the same meaning
    pub fn differs(&mut self, ctx: &mut Ctx, e: Id, text: &str, w: u8, decl: &str) -> Option<bool> {
        let one = ctx.c(1, 1);
        let (mut body, _) = Solver::script(ctx, &[one]);
        body.push_str(decl);
        // definitions of the nodes of e without declarations of its variables
        let z = ctx.n(e).clone();
        let mut defs = String::new();
        let name = match z.k {
            K::Const(v) => format!("(_ bv{} {})", v, w),
            K::Var(v) => format!("v{}", v),
            _ => {
                let wrap = ctx.c(0, w);
                let q = ctx.eq(e, wrap);
                let (s, _) = Solver::script(ctx, &[q]);
                for l in s.lines().filter(|l| l.starts_with("(define-fun")) {
                    defs.push_str(l);
                    defs.push('\n');
                }
                if !defs.contains(&format!("(define-fun e{} ", e)) {
                    // the comparison was rewritten: define the node directly
                    let mut done = HashSet::new();
                    defs.clear();
                    define(ctx, e, &mut done, &mut defs);
                }
                format!("e{}", e)
            }
        };
        body.push_str(&defs);
        body.push_str(&format!("(define-fun t () (_ BitVec {}) {})\n", w, text));
        body.push_str(&format!(
            "(assert (or (distinct t {n}) (bvult t (_ bv{ulo} {w})) (bvugt t (_ bv{uhi} {w})) (bvslt t (_ bv{slo} {w})) (bvsgt t (_ bv{shi} {w})) (distinct (bvand t (_ bv{kz} {w})) (_ bv0 {w})) (distinct (bvand t (_ bv{ko} {w})) (_ bv{ko} {w}))))\n",
            n = name, w = w, ulo = z.ulo, uhi = z.uhi, slo = z.slo as u64 & mask(w), shi = z.shi as u64 & mask(w), kz = z.kz & mask(w), ko = z.ko
        ));
        let script = format!("(reset)\n(set-option :timeout {})\n{}(check-sat)\n", self.timeout_ms, body);
        let l = self.talk(&script, self.timeout_ms)?;
        if l.iter().any(|x| x.starts_with("(error")) {
            eprintln!("{:?}\n{}", l, script);
            return Some(true);
        }
        match l.first().map(|x| x.as_str()) {
            Some("unsat") => Some(false),
            Some("sat") => Some(true),
            _ => None,
        }
    }

    /// Shows lo <= value <= hi, treating shifts as real division with an unknown rounding part.
    /// None: proved by the solver. Some(candidate for a counterexample): not provable in this abstraction.
    pub fn prove_linear(&mut self, ctx: &mut Ctx, value: Id, lo: i64, hi: i64) -> Option<HashMap<u32, u64>> {
        let t = Instant::now();
        // the value is an exact linear form of inputs and rounding parts; first without, then with all known bounds
        let f = ctx.form(value, true);
        let ms = self.left(60000);
        let mut s = format!("(reset)\n(set-option :timeout {})\n(set-logic QF_LRA)\n", ms);
        for (i, _) in &f.t {
            let (_, l, h) = ctx.forms.vars[*i as usize];
            s.push_str(&format!("(declare-const x{} Real)\n(assert (<= {} x{} {}))\n", i, num(l), i, num(h)));
        }
        let mut e = vec![num(f.c), "0.0".to_string()];
        for (k, co) in &f.t {
            e.push(format!("(* {} x{})", num(*co), k));
        }
        let p = 1i128 << f.sh;
        s.push_str(&format!(
            "(define-fun e () Real (+ {}))\n(assert (or (< e {}) (> e {})))\n(check-sat)\n",
            e.join(" "),
            num(lo as i128 * p),
            num(hi as i128 * p)
        ));
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}/lra{}.smt2", d, self.stats.lra), &s);
        }
        let r = self.talk(&s, ms);
        self.stats.lra += 1;
        self.stats.queries += 1;
        let mut out = Some(HashMap::new());
        if let Some(l) = r {
            if l.iter().any(|x| x.starts_with("(error")) {
                eprintln!("solver error {:?}", l);
            } else if l.first().map(|x| x.as_str()) == Some("unsat") {
                self.stats.lra_proved += 1;
                self.stats.unsat += 1;
                out = None;
            } else if l.first().map(|x| x.as_str()) == Some("sat") {
                // extreme point on the violated side: the most promising candidate
                let mut best = None;
                for up in [true, false] {
                    let mut m = HashMap::new();
                    let mut v = f.c;
                    for (k, co) in &f.t {
                        let (var, l, h) = ctx.forms.vars[*k as usize];
                        let x = if (*co > 0) == up { h } else { l };
                        v += co * x;
                        if let Some(var) = var {
                            m.insert(var, x as u64 & mask(ctx.vars[var as usize].w));
                        }
                    }
                    let bad = if up { v > hi as i128 * p } else { v < lo as i128 * p };
                    if bad && best.is_none() {
                        best = Some(m);
                    }
                }
                out = best.or(Some(HashMap::new()));
            }
        }
        let dt = t.elapsed().as_secs_f64();
        self.stats.seconds += dt;
        self.stats.slowest = self.stats.slowest.max(dt);
        out
    }
}

fn define(ctx: &Ctx, e: Id, done: &mut HashSet<Id>, out: &mut String) {
    if done.contains(&e) || matches!(ctx.n(e).k, K::Const(_) | K::Var(_)) {
        return;
    }
    for k in ctx.kids(e) {
        define(ctx, k, done, out);
    }
    let name = |k: Id| match ctx.n(k).k {
        K::Const(v) => format!("(_ bv{} {})", v, ctx.w(k)),
        K::Var(v) => format!("v{}", v),
        _ => format!("e{}", k),
    };
    out.push_str(&format!("(define-fun e{} () (_ BitVec {}) {})\n", e, ctx.w(e), ctx.smt_op(e, &name)));
    done.insert(e);
}

fn num(v: i128) -> String {
    if v < 0 {
        format!("(- {}.0)", -v)
    } else {
        format!("{}.0", v)
    }
}

fn parse_model(t: &str) -> Option<HashMap<u32, u64>> {
    let mut m = HashMap::new();
    let toks: Vec<String> = t.replace('(', " ").replace(')', " ").split_whitespace().map(|x| x.to_string()).collect();
    let mut i = 0;
    while i < toks.len() {
        if toks[i].starts_with('v') {
            if let Ok(v) = toks[i][1..].parse::<u32>() {
                let x = toks.get(i + 1)?;
                let val = if let Some(h) = x.strip_prefix("#x") {
                    u64::from_str_radix(h, 16).ok()?
                } else if let Some(b) = x.strip_prefix("#b") {
                    u64::from_str_radix(b, 2).ok()?
                } else if x == "_" {
                    i += 1;
                    toks.get(i + 1)?.strip_prefix("bv")?.parse().ok()?
                } else {
                    return None;
                };
                m.insert(v, val);
                i += 2;
                continue;
            }
        }
        i += 1;
    }
    Some(m)
}

