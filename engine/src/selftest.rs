//! Compares the simplifying constructors with the solver's own semantics on random expressions.

use crate::expr::*;
use crate::fp::{FOp, Round};
use crate::smt::*;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}

/// Builds an expression with the constructors and, side by side, its plain SMT-LIB text.
fn gen(c: &mut Ctx, r: &mut Rng, vars: &[Id], depth: u32, w: u8) -> (Id, String) {
    let leaf = depth == 0 || r.below(8) == 0;
    if leaf {
        let pick: Vec<Id> = vars.iter().copied().filter(|v| c.w(*v) == w).collect();
        if !pick.is_empty() && r.below(4) != 0 {
            let v = pick[r.below(pick.len() as u64) as usize];
            if let K::Var(k) = c.n(v).k {
                return (v, format!("v{}", k));
            }
        }
        let x = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => mask(w),
            3 => 1u64 << r.below(w as u64),
            _ => r.next() & mask(w),
        };
        return (c.c(x, w), format!("(_ bv{} {})", x & mask(w), w));
    }
    let d = depth - 1;
    if w == 1 && r.below(3) != 0 {
        let ow = [2u8, 5, 8, 16, 20, 32][r.below(6) as usize];
        let (a, sa) = gen(c, r, vars, d, ow);
        let (b, sb) = gen(c, r, vars, d, ow);
        return match r.below(5) {
            0 => (c.eq(a, b), format!("(ite (= {} {}) #b1 #b0)", sa, sb)),
            1 => (c.ult(a, b), format!("(ite (bvult {} {}) #b1 #b0)", sa, sb)),
            2 => (c.slt(a, b), format!("(ite (bvslt {} {}) #b1 #b0)", sa, sb)),
            3 => (c.ule(a, b), format!("(ite (bvule {} {}) #b1 #b0)", sa, sb)),
            _ => (c.sle(a, b), format!("(ite (bvsle {} {}) #b1 #b0)", sa, sb)),
        };
    }
    let bin = |c: &mut Ctx, r: &mut Rng, op: &str, f: &dyn Fn(&mut Ctx, Id, Id) -> Id| {
        let (a, sa) = gen(c, r, vars, d, w);
        let (b, sb) = gen(c, r, vars, d, w);
        (f(c, a, b), format!("({} {} {})", op, sa, sb))
    };
    match r.below(24) {
        0 | 1 => bin(c, r, "bvadd", &|c, a, b| c.add(a, b)),
        2 | 3 => bin(c, r, "bvsub", &|c, a, b| c.sub(a, b)),
        4 if w <= 8 => bin(c, r, "bvmul", &|c, a, b| c.mul(a, b)),
        5 => bin(c, r, "bvand", &|c, a, b| c.and(a, b)),
        6 => bin(c, r, "bvor", &|c, a, b| c.or(a, b)),
        7 => bin(c, r, "bvxor", &|c, a, b| c.xor(a, b)),
        8 => {
            let (a, sa) = gen(c, r, vars, d, w);
            (c.not(a), format!("(bvnot {})", sa))
        }
        9 | 10 => {
            let (a, sa) = gen(c, r, vars, d, w);
            let s = r.below(w as u64) as u8;
            match r.below(3) {
                0 => (c.shl_c(a, s), format!("(bvshl {} (_ bv{} {}))", sa, s, w)),
                1 => (c.lshr_c(a, s), format!("(bvlshr {} (_ bv{} {}))", sa, s, w)),
                _ => (c.ashr_c(a, s), format!("(bvashr {} (_ bv{} {}))", sa, s, w)),
            }
        }
        11 => {
            let (a, sa) = gen(c, r, vars, d, w);
            let k = r.next() & mask(w);
            let k = if r.below(2) == 0 { k & 15 } else { k };
            (c.scale(a, k), format!("(bvmul {} (_ bv{} {}))", sa, k & mask(w), w))
        }
        12 | 13 if w < 32 => {
            let ow = (w + 1 + r.below((32 - w) as u64) as u8).min(32);
            let ow = if c.w(vars[0]) == ow { ow } else { [8u8, 16, 32].iter().copied().find(|x| *x >= ow).unwrap_or(32) };
            let (a, sa) = gen(c, r, vars, d, ow);
            let lo = r.below((ow - w + 1) as u64) as u8;
            (c.extract(a, lo, w), format!("((_ extract {} {}) {})", lo + w - 1, lo, sa))
        }
        14 if w > 1 => {
            let k = 1 + r.below((w - 1) as u64) as u8;
            let (a, sa) = gen(c, r, vars, d, k);
            let (b, sb) = gen(c, r, vars, d, w - k);
            (c.concat(vec![a, b]), format!("(concat {} {})", sa, sb))
        }
        15 | 16 if w > 1 => {
            let k = 1 + r.below((w - 1) as u64) as u8;
            let k = if w > 16 && r.below(2) == 0 { 16 } else if w > 8 { 8 } else { k };
            let (a, sa) = gen(c, r, vars, d, k);
            if r.below(2) == 0 {
                (c.zext(a, w), format!("((_ zero_extend {}) {})", w - k, sa))
            } else {
                (c.sext(a, w), format!("((_ sign_extend {}) {})", w - k, sa))
            }
        }
        17 | 18 => {
            let (q, sq) = gen(c, r, vars, d, 1);
            let (a, sa) = gen(c, r, vars, d, w);
            let (b, sb) = gen(c, r, vars, d, w);
            (c.ite(q, a, b), format!("(ite (= {} #b1) {} {})", sq, sa, sb))
        }
        19 => {
            let (a, sa) = gen(c, r, vars, d, w);
            (c.abs(a), format!("(ite (bvslt {0} (_ bv0 {1})) (bvneg {0}) {0})", sa, w))
        }
        20 if w <= 8 => {
            let (a, sa) = gen(c, r, vars, d, w);
            let k = 1 + r.below(mask(w));
            let kc = c.c(k, w);
            match r.below(4) {
                0 => (c.udiv(a, kc), format!("(bvudiv {} (_ bv{} {}))", sa, k, w)),
                1 => (c.urem(a, kc), format!("(bvurem {} (_ bv{} {}))", sa, k, w)),
                2 => (c.sdiv(a, kc), format!("(bvsdiv {} (_ bv{} {}))", sa, k, w)),
                _ => (c.srem(a, kc), format!("(bvsrem {} (_ bv{} {}))", sa, k, w)),
            }
        }
        21 => {
            let (a, sa) = gen(c, r, vars, d, w);
            let (b, sb) = gen(c, r, vars, d, w);
            let (op, n) = [(0u8, "bvshl"), (1, "bvlshr"), (2, "bvashr")][r.below(3) as usize];
            (c.shift(op, a, b), format!("({} {} {})", n, sa, sb))
        }
        _ => bin(c, r, "bvadd", &|c, a, b| c.add(a, b)),
    }
}

/// Compares the processor's floating point with the solver's, on interesting and random numbers.
fn floats(n: u64, r: &mut Rng, solver: &mut Solver) -> (u64, u64) {
    let (mut bad, mut unknown) = (0, 0);
    let rounds = [Round::Floor, Round::Ceil, Round::Trunc, Round::Even, Round::Away];
    for _ in 0..n {
        let fw = if r.below(2) == 0 { 32u8 } else { 64 };
        let signed = r.below(2) == 0;
        let iw = [8u8, 16, 32, 64][r.below(4) as usize];
        let (op, kids, w) = match r.below(16) {
            0 => (FOp::Add(fw), vec![fw; 2], fw),
            1 => (FOp::Sub(fw), vec![fw; 2], fw),
            2 => (FOp::Mul(fw), vec![fw; 2], fw),
            3 => (FOp::Div(fw), vec![fw; 2], fw),
            4 => (FOp::Fma(fw), vec![fw; 3], fw),
            5 => (FOp::Sqrt(fw), vec![fw], fw),
            6 | 7 => (FOp::Round(rounds[r.below(5) as usize], fw), vec![fw], fw),
            8 => (FOp::Lt(fw), vec![fw; 2], 1),
            9 => (FOp::Le(fw), vec![fw; 2], 1),
            10 => (FOp::Eq(fw), vec![fw; 2], 1),
            11 => (FOp::NaN(fw), vec![fw], 1),
            12 => (FOp::From(signed, fw), vec![iw], fw),
            13 | 14 => (FOp::To(signed, fw), vec![fw], iw),
            _ => (FOp::Convert(fw), vec![fw], 96 - fw),
        };
        let v: Vec<u64> = kids
            .iter()
            .map(|&k| {
                let x = match r.below(6) {
                    0 => [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.5, -1.5, 127.5, 255.0, 255.5, 256.0, 65535.7, 1e10, -1e10][r.below(15) as usize],
                    1 => [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE][r.below(5) as usize],
                    2 | 3 => (r.below(1 << 17) as f64 - 65536.0) / 64.0,
                    4 => (r.next() as i64) as f64,
                    _ => return r.next() & mask(k),
                };
                match k {
                    _ if matches!(op, FOp::From(..)) => r.next() & mask(k),
                    32 => (x as f32).to_bits() as u64,
                    _ => x.to_bits(),
                }
            })
            .collect();
        let value = op.eval(&v, &kids, w) & mask(w);
        let nan = match op {
            FOp::Lt(_) | FOp::Le(_) | FOp::Eq(_) | FOp::NaN(_) | FOp::To(..) => false,
            _ if w == 32 => f32::from_bits(value as u32).is_nan(),
            _ => f64::from_bits(value).is_nan(),
        };
        let args: Vec<String> = v.iter().zip(&kids).map(|(x, k)| format!("(_ bv{} {})", x, k)).collect();
        let text = op.smt(&args, w);
        let text = if nan {
            // any pattern of a NaN
            format!("(ite (fp.isNaN ((_ to_fp {}) {})) (_ bv{} {}) (_ bv0 {}))", if w == 32 { "8 24" } else { "11 53" }, text, value, w, w)
        } else {
            text
        };
        let mut c = Ctx::new();
        let e = c.c(value, w);
        match solver.differs(&mut c, e, &text, w, "") {
            Some(false) => {}
            None => unknown += 1,
            Some(true) => {
                bad += 1;
                eprintln!("floating point: {:?} of {:x?} is {:x} for the processor but not for the solver", op, v, value);
            }
        }
    }
    (bad, unknown)
}

pub fn run(n: u64) -> i32 {
    let mut r = Rng(std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<u64>().ok()).unwrap_or(1).wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut solver = Solver::new("z3", 1500);
    let mut bad = 0;
    let mut unknown = 0;
    for i in 0..n {
        let mut c = Ctx::new();
        let mut vars = vec![];
        let mut decl = String::new();
        for (k, &(w, signed)) in [(8u8, false), (8, false), (16, false), (16, true), (32, false), (32, true), (1, false), (5, false)].iter().enumerate() {
            let (lo, hi) = match r.below(3) {
                0 if signed => (-(r.below(1 << (w - 2)) as i64) as u64, r.below(1 << (w - 2))),
                0 => {
                    let a = r.next() & mask(w);
                    let b = r.next() & mask(w);
                    (a.min(b), a.max(b))
                }
                _ if signed => ((-(1i64 << (w - 1))) as u64, (1u64 << (w - 1)) - 1),
                _ => (0, mask(w)),
            };
            let v = c.var(VarInfo { ord: k as u32, w, signed, lo, hi, uninit: false });
            vars.push(v);
            if let K::Var(id) = c.n(v).k {
                decl.push_str(&format!("(declare-const v{} (_ BitVec {}))\n", id, w));
                let (l, g) = if signed { ("bvsle", "bvsge") } else { ("bvule", "bvuge") };
                decl.push_str(&format!("(assert ({} v{} (_ bv{} {})))\n", g, id, lo & mask(w), w));
                decl.push_str(&format!("(assert ({} v{} (_ bv{} {})))\n", l, id, hi & mask(w), w));
            }
        }
        let w = [1u8, 5, 8, 16, 32][r.below(5) as usize];
        let depth = 2 + r.below(5) as u32;
        let (e, s) = gen(&mut c, &mut r, &vars, depth, w);
        match solver.differs(&mut c, e, &s, w, &decl) {
            Some(false) => {}
            None => unknown += 1,
            Some(true) => {
                bad += 1;
                eprintln!("expression {}: simplified form differs for {}", i, s);
            }
        }
    }
    let (b, u) = floats(n / 2, &mut r, &mut Solver::new("z3-new", 1500));
    bad += b;
    unknown += u;
    println!("{{\"selftest\":{},\"wrong\":{},\"unknown\":{}}}", n, bad, unknown);
    if bad > 0 {
        1
    } else {
        0
    }
}
