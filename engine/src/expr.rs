//! Hash-consed bit-vector expressions (width 1 to 64) with a simplifying constructor for each operation.
//!
//! Sums are kept as linear forms modulo 2^w, bit manipulation as concatenations of pieces; both views are
//! converted into each other where that is exact. Every node carries signed and unsigned bounds and known bits.

use crate::fp::FOp;
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u64),
    Var(u32),
    /// sum of coefficient*atom plus constant
    Lin(Box<[(Id, u64)]>, u64),
    Mul(Id, Id),
    UDiv(Id, Id),
    URem(Id, Id),
    SDiv(Id, Id),
    SRem(Id, Id),
    And(Id, Id),
    Or(Id, Id),
    Xor(Id, Id),
    Not(Id),
    Shl(Id, Id),
    LShr(Id, Id),
    AShr(Id, Id),
    AShrC(Id, u8),
    SExt(Id),
    /// bits lo.. of the operand
    Extract(Id, u8),
    /// from high to low
    Concat(Box<[Id]>),
    Ite(Id, Id, Id),
    Abs(Id),
    Eq(Id, Id),
    Ult(Id, Id),
    Slt(Id, Id),
    F(FOp, Box<[Id]>),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub k: K,
    pub w: u8,
    pub slo: i64,
    pub shi: i64,
    pub ulo: u64,
    pub uhi: u64,
    /// known zero and known one bits
    pub kz: u64,
    pub ko: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct VarInfo {
    pub ord: u32,
    pub w: u8,
    pub signed: bool,
    pub lo: u64,
    pub hi: u64,
    pub uninit: bool,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<(u8, K), Id>,
    pub vars: Vec<VarInfo>,
    varmap: HashMap<VarInfo, Id>,
    varsets: HashMap<Id, Rc<Vec<u32>>>,
    pub forms: crate::form::Forms,
    /// expressions are kept as they are, except for those of constants
    pub raw: bool,
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

pub fn sext64(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

fn smin(w: u8) -> i64 {
    if w >= 64 {
        i64::MIN
    } else {
        -(1i64 << (w - 1))
    }
}
fn smax(w: u8) -> i64 {
    if w >= 64 {
        i64::MAX
    } else {
        (1i64 << (w - 1)) - 1
    }
}

struct Rng {
    slo: i64,
    shi: i64,
    ulo: u64,
    uhi: u64,
    kz: u64,
    ko: u64,
}

impl Rng {
    fn full(w: u8) -> Rng {
        Rng { slo: smin(w), shi: smax(w), ulo: 0, uhi: mask(w), kz: !mask(w), ko: 0 }
    }
    /// the value is congruent to an integer in [lo,hi]
    fn meet_int(&mut self, lo: i128, hi: i128, w: u8) {
        let m: i128 = 1i128 << w;
        if hi - lo >= m {
            return;
        }
        // unsigned
        let k = lo.div_euclid(m);
        if hi < (k + 1) * m {
            self.ulo = self.ulo.max((lo - k * m) as u64);
            self.uhi = self.uhi.min((hi - k * m) as u64);
        }
        let half = m / 2;
        let k = (lo + half).div_euclid(m);
        if hi + half < (k + 1) * m {
            self.slo = self.slo.max((lo - k * m) as i64);
            self.shi = self.shi.min((hi - k * m) as i64);
        }
    }
    fn unify(&mut self, w: u8) {
        for _ in 0..2 {
            self.ulo = self.ulo.max(self.ko & mask(w));
            self.uhi = self.uhi.min(!self.kz & mask(w));
            if self.slo >= 0 || self.shi < 0 {
                self.ulo = self.ulo.max(self.slo as u64 & mask(w));
                self.uhi = self.uhi.min(self.shi as u64 & mask(w));
            }
            if self.uhi <= smax(w) as u64 {
                self.slo = self.slo.max(self.ulo as i64);
                self.shi = self.shi.min(self.uhi as i64);
            } else if self.ulo > smax(w) as u64 {
                self.slo = self.slo.max(sext64(self.ulo, w));
                self.shi = self.shi.min(sext64(self.uhi, w));
            }
            if self.ulo <= self.uhi {
                let diff = self.ulo ^ self.uhi;
                let known = if diff == 0 { mask(w) } else { mask(w) & !(u64::MAX >> diff.leading_zeros()) };
                self.ko |= self.ulo & known;
                self.kz |= !self.ulo & known;
            }
        }
        self.kz |= !mask(w);
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { nodes: vec![], map: HashMap::new(), vars: vec![], varmap: HashMap::new(), varsets: HashMap::new(), forms: Default::default(), raw: false }
    }

    pub fn n(&self, id: Id) -> &Node {
        &self.nodes[id as usize]
    }
    pub fn w(&self, id: Id) -> u8 {
        self.nodes[id as usize].w
    }
    pub fn cv(&self, id: Id) -> Option<u64> {
        match self.nodes[id as usize].k {
            K::Const(v) => Some(v),
            _ => None,
        }
    }

    pub fn c(&mut self, v: u64, w: u8) -> Id {
        debug_assert!(w >= 1 && w <= 64);
        let v = v & mask(w);
        let key = (w, K::Const(v));
        if let Some(&i) = self.map.get(&key) {
            return i;
        }
        let id = self.nodes.len() as Id;
        let s = sext64(v, w);
        self.nodes.push(Node { k: K::Const(v), w, slo: s, shi: s, ulo: v, uhi: v, kz: !v, ko: v });
        self.map.insert(key, id);
        id
    }

    pub fn var(&mut self, info: VarInfo) -> Id {
        if let Some(&i) = self.varmap.get(&info) {
            return i;
        }
        let vid = self.vars.len() as u32;
        self.vars.push(info.clone());
        let id = self.intern(info.w, K::Var(vid));
        self.varmap.insert(info, id);
        id
    }

    fn range(&self, w: u8, k: &K) -> Rng {
        let mut r = Rng::full(w);
        match k {
            K::Const(_) => unreachable!(),
            K::Var(v) => {
                let i = &self.vars[*v as usize];
                if i.signed {
                    r.slo = i.lo as i64;
                    r.shi = i.hi as i64;
                } else {
                    r.ulo = i.lo;
                    r.uhi = i.hi;
                }
            }
            K::Lin(t, c) => {
                let (mut l, mut h) = (sext64(*c, w) as i128, sext64(*c, w) as i128);
                let (mut l2, mut h2) = (l, h);
                let mut ok = true;
                for &(a, co) in t.iter() {
                    let n = self.n(a);
                    let co = sext64(co, w) as i128;
                    let (x, y) = (n.slo as i128 * co, n.shi as i128 * co);
                    l += x.min(y);
                    h += x.max(y);
                    let (x, y) = match (n.ulo as i128).checked_mul(co).zip((n.uhi as i128).checked_mul(co)) {
                        Some(p) => p,
                        None => {
                            ok = false;
                            (0, 0)
                        }
                    };
                    if l2.checked_add(x.min(y)).is_none() || h2.checked_add(x.max(y)).is_none() {
                        ok = false;
                    } else {
                        l2 += x.min(y);
                        h2 += x.max(y);
                    }
                }
                r.meet_int(l, h, w);
                if ok {
                    r.meet_int(l2, h2, w);
                }
                // trailing zeros
                let mut tz = if *c == 0 { 64 } else { c.trailing_zeros() };
                for &(a, co) in t.iter() {
                    let atz = (!self.n(a).kz).trailing_zeros().min(w as u32);
                    tz = tz.min(co.trailing_zeros() + atz);
                }
                if tz > 0 {
                    r.kz |= mask(tz.min(w as u32) as u8);
                }
            }
            K::Mul(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                let p = [
                    x.slo as i128 * y.slo as i128,
                    x.slo as i128 * y.shi as i128,
                    x.shi as i128 * y.slo as i128,
                    x.shi as i128 * y.shi as i128,
                ];
                r.meet_int(*p.iter().min().unwrap(), *p.iter().max().unwrap(), w);
                if let Some(h) = (x.uhi as i128).checked_mul(y.uhi as i128) {
                    r.meet_int(x.ulo as i128 * y.ulo as i128, h, w);
                }
            }
            K::UDiv(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                if y.ulo > 0 {
                    r.ulo = x.ulo / y.uhi;
                    r.uhi = x.uhi / y.ulo;
                }
            }
            K::URem(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                if y.ulo > 0 {
                    r.uhi = x.uhi.min(y.uhi - 1);
                }
            }
            K::SDiv(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                if y.slo > 0 {
                    let m = (x.slo as i128).abs().max((x.shi as i128).abs()) / y.slo as i128;
                    let l = if x.slo >= 0 { 0 } else { -m };
                    let h = if x.shi <= 0 { 0 } else { m };
                    r.meet_int(l, h, w);
                }
            }
            K::SRem(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                if y.slo > 0 {
                    let m = y.shi as i128 - 1;
                    let l = if x.slo >= 0 { 0 } else { -m };
                    let h = if x.shi <= 0 { 0 } else { m };
                    r.meet_int(l, h, w);
                }
            }
            K::And(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                r.kz |= x.kz | y.kz;
                r.ko |= x.ko & y.ko;
                r.uhi = x.uhi.min(y.uhi);
            }
            K::Or(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                r.kz |= x.kz & y.kz;
                r.ko |= x.ko | y.ko;
                r.ulo = x.ulo.max(y.ulo);
            }
            K::Xor(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                r.kz |= (x.kz & y.kz) | (x.ko & y.ko);
                r.ko |= (x.kz & y.ko) | (x.ko & y.kz);
            }
            K::Not(a) => {
                let x = self.n(*a);
                r.kz |= x.ko;
                r.ko |= x.kz & mask(w);
                r.slo = !x.shi;
                r.shi = !x.slo;
            }
            K::Shl(..) | K::LShr(..) | K::AShr(..) => {
                if let K::LShr(a, _) = k {
                    r.uhi = self.n(*a).uhi;
                }
                if let K::AShr(a, _) = k {
                    let x = self.n(*a);
                    r.slo = x.slo.min(0);
                    r.shi = x.shi.max(-1);
                }
            }
            K::AShrC(a, s) => {
                let x = self.n(*a);
                r.slo = x.slo >> s;
                r.shi = x.shi >> s;
            }
            K::SExt(a) => {
                let x = self.n(*a);
                r.slo = x.slo;
                r.shi = x.shi;
                let lm = mask(x.w - 1);
                r.kz |= x.kz & lm;
                r.ko |= x.ko & lm;
            }
            K::Extract(a, lo) => {
                let x = self.n(*a);
                r.kz |= (x.kz >> lo) & mask(w);
                r.ko |= (x.ko >> lo) & mask(w);
                // value of the shifted operand if it fits
                let (sl, sh) = (x.slo >> lo, x.shi >> lo);
                if sh as i128 - (sl as i128) < (1i128 << w) {
                    r.meet_int(sl as i128, sh as i128, w);
                }
                let (ul, uh) = (x.ulo >> lo, x.uhi >> lo);
                if uh - ul < mask(w) {
                    r.meet_int(ul as i128, uh as i128, w);
                }
            }
            K::Concat(p) => {
                let (mut kz, mut ko, mut ul, mut uh) = (0u64, 0u64, 0u64, 0u64);
                for &x in p.iter() {
                    let n = self.n(x);
                    let sh = |v: u64| if n.w >= 64 { 0 } else { v << n.w };
                    kz = sh(kz) | (n.kz & mask(n.w));
                    ko = sh(ko) | n.ko;
                    ul = sh(ul) | n.ulo;
                    uh = sh(uh) | n.uhi;
                }
                r.kz |= kz;
                r.ko |= ko;
                r.ulo = ul;
                r.uhi = uh;
            }
            K::Ite(_, a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                r.slo = x.slo.min(y.slo);
                r.shi = x.shi.max(y.shi);
                r.ulo = x.ulo.min(y.ulo);
                r.uhi = x.uhi.max(y.uhi);
                r.kz |= x.kz & y.kz;
                r.ko |= x.ko & y.ko;
            }
            K::Abs(a) => {
                let x = self.n(*a);
                if x.slo > smin(w) {
                    let m = (x.slo as i128).abs().max((x.shi as i128).abs());
                    let l = if x.slo <= 0 && x.shi >= 0 { 0 } else { (x.slo as i128).abs().min((x.shi as i128).abs()) };
                    r.meet_int(l, m, w);
                }
            }
            K::Eq(..) | K::Ult(..) | K::Slt(..) | K::F(..) => {}
        }
        r.unify(w);
        r
    }

    /// tighter bounds for sums over shifted sums
    fn refine(&mut self, w: u8, k: &K, r: &mut Rng) {
        let deep = |s: &Ctx, t: &[(Id, u64)]| {
            t.len() > 1
                && t.iter().any(|&(a, _)| match &s.n(a).k {
                    K::AShrC(..) | K::Extract(..) | K::SExt(..) => true,
                    K::Concat(p) => p.len() == 2 && s.cv(p[0]) == Some(0) && !matches!(s.n(p[1]).k, K::Var(_)),
                    _ => false,
                })
        };
        let go = w >= 16
            && match k {
                K::Lin(t, _) => deep(self, t),
                K::Extract(a, _) => match &self.n(*a).k {
                    K::Lin(..) => true,
                    _ => false,
                },
                _ => false,
            };
        if !go {
            return;
        }
        for signed in [true, false] {
            if let Some(f) = self.form_of(w, k, signed) {
                let (l, h) = self.form_range(&f);
                if signed {
                    r.slo = r.slo.max(l as i64);
                    r.shi = r.shi.min(h as i64);
                } else {
                    r.ulo = r.ulo.max(l.max(0) as u64);
                    r.uhi = r.uhi.min(h as u64);
                }
            }
        }
        r.unify(w);
    }

    /// whether a sum has the value that it has without limits, as a signed number
    fn exact(&mut self, a: Id) -> bool {
        let n = self.n(a).clone();
        let w = n.w;
        if let K::Lin(t, c) = &n.k {
            let (mut l, mut h) = (sext64(*c, w) as i128, sext64(*c, w) as i128);
            for &(x, co) in t.iter() {
                let n = self.n(x);
                let co = sext64(co, w) as i128;
                let (p, q) = (n.slo as i128 * co, n.shi as i128 * co);
                l += p.min(q);
                h += p.max(q);
            }
            if l >= smin(w) as i128 && h <= smax(w) as i128 {
                return true;
            }
            // the form is that of the sum itself only if nothing was wrapped
            if w >= 16 && w < 63 {
                if let Some(f) = self.form_sum(t, *c, w) {
                    let (l, h) = self.form_range(&f);
                    return l >= smin(w) as i128 && h <= smax(w) as i128;
                }
            }
        }
        false
    }

    fn intern(&mut self, w: u8, k: K) -> Id {
        debug_assert!(w >= 1 && w <= 64, "width {} {:?}", w, k);
        let key = (w, k);
        if let Some(&i) = self.map.get(&key) {
            return i;
        }
        let mut r = Rng::full(w);
        if !self.raw {
            r = self.range(w, &key.1);
            self.refine(w, &key.1, &mut r);
        }
        if r.ulo == r.uhi {
            let v = r.ulo;
            let i = self.c(v, w);
            self.map.insert(key, i);
            return i;
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { k: key.1.clone(), w, slo: r.slo, shi: r.shi, ulo: r.ulo, uhi: r.uhi, kz: r.kz, ko: r.ko });
        self.map.insert(key, id);
        id
    }

    /// an expression without any simplification
    fn plain(&mut self, w: u8, k: K) -> Id {
        let id = self.nodes.len() as Id;
        let r = Rng::full(w);
        self.nodes.push(Node { k: k.clone(), w, slo: r.slo, shi: r.shi, ulo: r.ulo, uhi: r.uhi, kz: r.kz, ko: r.ko });
        let constant = self.kids(id).iter().all(|&x| self.cv(x).is_some());
        let v = if constant { self.eval(id, &|_| 0, &mut HashMap::new()) } else { 0 };
        self.nodes.pop();
        if constant {
            self.c(v, w)
        } else {
            self.intern(w, k)
        }
    }

    /// an operation on floating-point numbers, given as bit patterns
    pub fn float(&mut self, o: FOp, p: &[Id], w: u8) -> Id {
        self.plain(w, K::F(o, p.to_vec().into_boxed_slice()))
    }

    // ---- linear arithmetic ----

    fn to_lin(&mut self, id: Id) -> (Vec<(Id, u64)>, u64) {
        let w = self.w(id);
        match self.n(id).k.clone() {
            K::Const(v) => (vec![], v),
            K::Lin(t, c) => (t.to_vec(), c),
            K::Not(a) => {
                let (mut t, c) = self.to_lin(a);
                for x in &mut t {
                    x.1 = x.1.wrapping_neg() & mask(w);
                }
                (t, !c & mask(w))
            }
            K::Concat(p) => {
                let mut sym = None;
                let mut cnt = 0;
                let mut c = 0u64;
                let mut off = w;
                for &x in p.iter() {
                    off -= self.w(x);
                    match self.cv(x) {
                        Some(v) => c |= v << off,
                        None => {
                            cnt += 1;
                            sym = Some((x, off));
                        }
                    }
                }
                if cnt == 1 {
                    let (x, off) = sym.unwrap();
                    let mut z = self.zext(x, w);
                    if off + self.w(x) == w && self.n(x).slo < 0 {
                        // the upper bits do not matter: those that make it a shifted sum
                        if let K::Extract(b, _) = self.n(x).k {
                            if let K::Lin(..) = self.n(b).k {
                                let y = self.sext(x, w);
                                if let K::AShrC(..) | K::Lin(..) = self.n(y).k {
                                    z = y;
                                }
                            }
                        }
                    }
                    match self.n(z).k.clone() {
                        // the zero extension may itself be a linear form
                        K::Lin(t, c2) => {
                            let m = 1u64 << off;
                            let t = t.iter().map(|&(a, co)| (a, co.wrapping_mul(m) & mask(w))).collect();
                            (t, c2.wrapping_mul(m).wrapping_add(c) & mask(w))
                        }
                        _ => (vec![(z, 1u64 << off)], c),
                    }
                } else {
                    (vec![(id, 1)], 0)
                }
            }
            _ => (vec![(id, 1)], 0),
        }
    }

    fn from_lin(&mut self, w: u8, mut t: Vec<(Id, u64)>, c: u64) -> Id {
        t.sort_unstable_by_key(|x| x.0);
        let mut o: Vec<(Id, u64)> = Vec::with_capacity(t.len());
        for (a, co) in t {
            match o.last_mut() {
                Some(l) if l.0 == a => l.1 = l.1.wrapping_add(co) & mask(w),
                _ => o.push((a, co & mask(w))),
            }
        }
        o.retain(|x| x.1 != 0);
        let c = c & mask(w);
        if o.is_empty() {
            return self.c(c, w);
        }
        if o.len() == 1 && o[0].1 == 1 && c == 0 {
            return o[0].0;
        }
        self.intern(w, K::Lin(o.into_boxed_slice(), c))
    }

    pub fn add(&mut self, a: Id, b: Id) -> Id {
        if self.raw {
            let w = self.w(a);
            return match (self.cv(a), self.cv(b)) {
                (Some(0), _) => b,
                (_, Some(0)) => a,
                (None, Some(c)) => self.plain(w, K::Lin(Box::new([(a, 1)]), c)),
                (Some(c), None) => self.plain(w, K::Lin(Box::new([(b, 1)]), c)),
                _ => self.plain(w, K::Lin(Box::new([(a, 1), (b, 1)]), 0)),
            };
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x.wrapping_add(y), w);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let (mut t, c) = self.to_lin(a);
        let (t2, c2) = self.to_lin(b);
        t.extend(t2);
        self.from_lin(w, t, c.wrapping_add(c2))
    }
    pub fn scale(&mut self, a: Id, m: u64) -> Id {
        if self.raw {
            let w = self.w(a);
            return self.plain(w, K::Lin(Box::new([(a, m & mask(w))]), 0));
        }
        let w = self.w(a);
        if let Some(x) = self.cv(a) {
            return self.c(x.wrapping_mul(m), w);
        }
        let m = m & mask(w);
        if m == 0 {
            return self.c(0, w);
        }
        if m == 1 {
            return a;
        }
        let (mut t, c) = self.to_lin(a);
        for x in &mut t {
            x.1 = x.1.wrapping_mul(m);
        }
        self.from_lin(w, t, c.wrapping_mul(m))
    }
    pub fn neg(&mut self, a: Id) -> Id {
        self.scale(a, u64::MAX)
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        if self.raw {
            let w = self.w(a);
            return self.plain(w, K::Lin(Box::new([(a, 1), (b, mask(w))]), 0));
        }
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        if self.raw {
            return self.plain(self.w(a), K::Mul(a, b));
        }
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        if let Some(x) = self.cv(a) {
            return self.scale(b, x);
        }
        if let Some(x) = self.cv(b) {
            return self.scale(a, x);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.intern(w, K::Mul(a, b))
    }
    pub fn udiv(&mut self, a: Id, b: Id) -> Id {
        if self.raw {
            return self.plain(self.w(a), K::UDiv(a, b));
        }
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(x / y, w),
            (_, Some(1)) => return a,
            (_, Some(y)) if y.is_power_of_two() => return self.lshr_c(a, y.trailing_zeros() as u8),
            _ => {}
        }
        if self.n(a).uhi < self.n(b).ulo {
            return self.c(0, w);
        }
        self.intern(w, K::UDiv(a, b))
    }
    pub fn urem(&mut self, a: Id, b: Id) -> Id {
        if self.raw {
            return self.plain(self.w(a), K::URem(a, b));
        }
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(x % y, w),
            (_, Some(y)) if y.is_power_of_two() => {
                let m = self.c(y - 1, w);
                return self.and(a, m);
            }
            _ => {}
        }
        if self.n(a).uhi < self.n(b).ulo {
            return a;
        }
        self.intern(w, K::URem(a, b))
    }
    pub fn sdiv(&mut self, a: Id, b: Id) -> Id {
        if self.raw {
            return self.plain(self.w(a), K::SDiv(a, b));
        }
        let w = self.w(a);
        if self.n(a).slo >= 0 && self.n(b).slo >= 0 {
            return self.udiv(a, b);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => {
                let v = (sext64(x, w) as i128 / sext64(y, w) as i128) as u64;
                return self.c(v, w);
            }
            (_, Some(1)) => return a,
            _ => {}
        }
        self.intern(w, K::SDiv(a, b))
    }
    pub fn srem(&mut self, a: Id, b: Id) -> Id {
        if self.raw {
            return self.plain(self.w(a), K::SRem(a, b));
        }
        let w = self.w(a);
        if self.n(a).slo >= 0 && self.n(b).slo >= 0 {
            return self.urem(a, b);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => {
                let v = (sext64(x, w) as i128 % sext64(y, w) as i128) as u64;
                return self.c(v, w);
            }
            _ => {}
        }
        self.intern(w, K::SRem(a, b))
    }
    pub fn abs(&mut self, a: Id) -> Id {
        if self.raw {
            return self.plain(self.w(a), K::Abs(a));
        }
        let w = self.w(a);
        if let Some(x) = self.cv(a) {
            return self.c(sext64(x, w).unsigned_abs(), w);
        }
        if self.n(a).slo >= 0 {
            return a;
        }
        if self.n(a).shi <= 0 {
            return self.neg(a);
        }
        self.intern(w, K::Abs(a))
    }

    // ---- bits ----

    pub fn extract(&mut self, a: Id, lo: u8, w: u8) -> Id {
        if self.raw {
            return if lo == 0 && w == self.w(a) { a } else { self.plain(w, K::Extract(a, lo)) };
        }
        let aw = self.w(a);
        debug_assert!(lo + w <= aw && w > 0, "extract {} {} of {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.c(v >> lo, w);
        }
        let n = self.n(a);
        let m = mask(w) << lo;
        if (n.kz | n.ko) & m == m {
            let v = n.ko >> lo;
            return self.c(v, w);
        }
        match n.k.clone() {
            K::Concat(p) => {
                let mut off = aw;
                let mut out = vec![];
                for &x in p.iter() {
                    let xw = self.w(x);
                    off -= xw;
                    let l = off.max(lo);
                    let h = (off + xw).min(lo + w);
                    if l < h {
                        out.push(self.extract(x, l - off, h - l));
                    }
                }
                self.concat(out)
            }
            K::Extract(b, l2) => self.extract(b, lo + l2, w),
            K::Not(b) => {
                let e = self.extract(b, lo, w);
                self.not(e)
            }
            K::SExt(b) => {
                let bw = self.w(b);
                if lo + w <= bw {
                    self.extract(b, lo, w)
                } else if lo == 0 {
                    self.sext(b, w)
                } else {
                    self.intern(w, K::Extract(a, lo))
                }
            }
            K::AShrC(b, s) if lo + w + s <= aw => self.extract(b, lo + s, w),
            K::And(x, y) => {
                let (x, y) = (self.extract(x, lo, w), self.extract(y, lo, w));
                self.and(x, y)
            }
            K::Or(x, y) => {
                let (x, y) = (self.extract(x, lo, w), self.extract(y, lo, w));
                self.or(x, y)
            }
            K::Xor(x, y) => {
                let (x, y) = (self.extract(x, lo, w), self.extract(y, lo, w));
                self.xor(x, y)
            }
            K::Ite(c, x, y) => {
                let (x, y) = (self.extract(x, lo, w), self.extract(y, lo, w));
                self.ite(c, x, y)
            }
            K::Lin(t, 0) if t.len() == 1 && t[0].1.is_power_of_two() => {
                let s = t[0].1.trailing_zeros() as u8;
                let p = self.extract(t[0].0, 0, aw - s);
                let z = self.c(0, s);
                let v = self.concat(vec![p, z]);
                if v == a {
                    self.intern(w, K::Extract(a, lo))
                } else {
                    self.extract(v, lo, w)
                }
            }
            K::Lin(t, c) => {
                // the low bits of the constant cannot carry into the rest
                let s = t.iter().map(|x| x.1.trailing_zeros()).min().unwrap() as u8;
                if s > 0 && lo >= s {
                    let pw = aw - s;
                    let mut p = self.c(c >> s, pw);
                    for &(x, co) in t.iter() {
                        let y = self.extract(x, 0, pw);
                        let y = self.scale(y, co >> s);
                        p = self.add(p, y);
                    }
                    self.extract(p, lo - s, w)
                } else {
                    self.intern(w, K::Extract(a, lo))
                }
            }
            _ => self.intern(w, K::Extract(a, lo)),
        }
    }

    /// truncation as written in the program: pushed into sums
    pub fn trunc(&mut self, a: Id, w: u8) -> Id {
        if self.raw {
            return self.extract(a, 0, w);
        }
        let aw = self.w(a);
        if w == aw {
            return a;
        }
        match self.n(a).k.clone() {
            K::Lin(t, c) if w >= 8 => {
                let mut s = self.c(c, w);
                for &(x, co) in t.iter() {
                    let y = self.trunc(x, w);
                    let y = self.scale(y, co);
                    s = self.add(s, y);
                }
                s
            }
            K::Mul(x, y) if w >= 8 => {
                let (x, y) = (self.trunc(x, w), self.trunc(y, w));
                self.mul(x, y)
            }
            K::Ite(c, x, y) => {
                let (x, y) = (self.trunc(x, w), self.trunc(y, w));
                self.ite(c, x, y)
            }
            _ => self.extract(a, 0, w),
        }
    }

    pub fn concat(&mut self, pieces: Vec<Id>) -> Id {
        if self.raw {
            let w: u32 = pieces.iter().map(|&x| self.w(x) as u32).sum();
            return if pieces.len() == 1 { pieces[0] } else { self.plain(w as u8, K::Concat(pieces.into_boxed_slice())) };
        }
        let mut flat: Vec<Id> = vec![];
        for p in pieces {
            if let K::Concat(q) = &self.n(p).k {
                let q = q.clone();
                for &x in q.iter() {
                    self.push_piece(&mut flat, x);
                }
            } else {
                self.push_piece(&mut flat, p);
            }
        }
        if flat.len() == 1 {
            return flat[0];
        }
        let w: u32 = flat.iter().map(|&x| self.w(x) as u32).sum();
        assert!(w <= 64, "concat too wide");
        if flat.len() == 2 && self.cv(flat[0]) == Some(0) {
            // zero extension of a sum that cannot wrap
            if let Some(r) = self.zext_lin(flat[1], w as u8) {
                return r;
            }
        }
        self.intern(w as u8, K::Concat(flat.into_boxed_slice()))
    }

    fn push_piece(&mut self, flat: &mut Vec<Id>, x: Id) {
        if let Some(&l) = flat.last() {
            if let (Some(a), Some(b)) = (self.cv(l), self.cv(x)) {
                let (lw, xw) = (self.w(l), self.w(x));
                let v = self.c((a << xw) | b, lw + xw);
                *flat.last_mut().unwrap() = v;
                return;
            }
            let (bl, ol) = self.base(l);
            let (bx, ox) = self.base(x);
            if bl == bx && ol == ox + self.w(x) {
                let w = self.w(l) + self.w(x);
                let m = self.extract(bx, ox, w);
                flat.pop();
                if let K::Concat(q) = self.n(m).k.clone() {
                    for &y in q.iter() {
                        self.push_piece(flat, y);
                    }
                } else {
                    self.push_piece(flat, m);
                }
                return;
            }
            // complements of adjacent bits
            if let (K::Not(a), K::Not(b)) = (self.n(l).k.clone(), self.n(x).k.clone()) {
                let (ba, oa) = self.base(a);
                let (bb, ob) = self.base(b);
                if ba == bb && oa == ob + self.w(x) {
                    let w = self.w(l) + self.w(x);
                    let m = self.extract(bb, ob, w);
                    let m = self.not(m);
                    flat.pop();
                    self.push_piece(flat, m);
                    return;
                }
            }
        }
        flat.push(x);
    }

    fn base(&self, x: Id) -> (Id, u8) {
        match self.n(x).k {
            K::Extract(b, lo) => (b, lo),
            _ => (x, 0),
        }
    }

    /// zero extension of a sum whose exact value (for one reading of atoms and constant) fits without wrapping
    fn zext_lin(&mut self, a: Id, w: u8) -> Option<Id> {
        let aw = self.w(a);
        if let K::Lin(t, c) = self.n(a).k.clone() {
            let lim = 1i128 << aw;
            for signed in [false, true] {
                let (mut l, mut h) = (0i128, 0i128);
                let mut ok = true;
                for &(x, co) in t.iter() {
                    let n = self.n(x);
                    let co = sext64(co, aw) as i128;
                    let (x, y) = if signed { (n.slo as i128, n.shi as i128) } else { (n.ulo as i128, n.uhi as i128) };
                    match (x.checked_mul(co), y.checked_mul(co)) {
                        (Some(p), Some(q)) if p.abs() < 1 << 100 && q.abs() < 1 << 100 => {
                            l += p.min(q);
                            h += p.max(q);
                        }
                        _ => ok = false,
                    }
                }
                if !ok {
                    continue;
                }
                for k in [sext64(c, aw) as i128, c as i128] {
                    if l + k >= 0 && h + k < lim {
                        let mut s = self.c(k as u64, w);
                        for &(x, co) in t.iter() {
                            let y = if signed { self.sext(x, w) } else { self.zext(x, w) };
                            let y = self.scale(y, sext64(co, aw) as u64);
                            s = self.add(s, y);
                        }
                        return Some(s);
                    }
                }
            }
        }
        None
    }

    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        if self.raw {
            let aw = self.w(a);
            if aw == w {
                return a;
            }
            let z = self.c(0, w - aw);
            return self.plain(w, K::Concat(Box::new([z, a])));
        }
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.c(v, w);
        }
        if let K::Ite(c, x, y) = self.n(a).k {
            if self.cv(x).is_some() || self.cv(y).is_some() {
                let (x, y) = (self.zext(x, w), self.zext(y, w));
                return self.ite(c, x, y);
            }
        }
        let z = self.c(0, w - aw);
        self.concat(vec![z, a])
    }

    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        if self.raw {
            return if self.w(a) == w { a } else { self.plain(w, K::SExt(a)) };
        }
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.c(sext64(v, aw) as u64, w);
        }
        if self.n(a).slo >= 0 {
            return self.zext(a, w);
        }
        match self.n(a).k.clone() {
            K::SExt(b) => self.sext(b, w),
            K::Lin(t, c) => {
                if self.exact(a) {
                    let mut s = self.c(sext64(c, aw) as u64, w);
                    for &(x, co) in t.iter() {
                        let y = self.sext(x, w);
                        let y = self.scale(y, sext64(co, aw) as u64);
                        s = self.add(s, y);
                    }
                    return s;
                }
                self.intern(w, K::SExt(a))
            }
            K::Extract(b, lo) => {
                let n = self.n(b);
                let (sl, sh) = (n.slo >> lo, n.shi >> lo);
                if sl >= smin(aw) && sh <= smax(aw) {
                    let bw = n.w;
                    if bw == w {
                        return self.ashr_c(b, lo);
                    }
                    if bw > w && lo + w <= bw {
                        return self.extract(b, lo, w);
                    }
                    if bw < w {
                        let s = self.ashr_c(b, lo);
                        return self.sext(s, w);
                    }
                }
                self.intern(w, K::SExt(a))
            }
            K::AShrC(b, s) => {
                // shift the wider value instead if that is a sum
                if let K::Lin(..) = self.n(b).k {
                    let e = self.sext(b, w);
                    if let K::Lin(..) = self.n(e).k {
                        return self.ashr_c(e, s);
                    }
                }
                self.intern(w, K::SExt(a))
            }
            K::Ite(c, x, y) => {
                let (x, y) = (self.sext(x, w), self.sext(y, w));
                self.ite(c, x, y)
            }
            _ => self.intern(w, K::SExt(a)),
        }
    }

    pub fn shl_c(&mut self, a: Id, s: u8) -> Id {
        if self.raw {
            let w = self.w(a);
            if s >= w {
                return self.c(0, w);
            }
            let n = self.c(s as u64, w);
            return self.plain(w, K::Shl(a, n));
        }
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.c(0, w);
        }
        if let Some(v) = self.cv(a) {
            return self.c(v << s, w);
        }
        if let K::Lin(..) = self.n(a).k {
            return self.scale(a, 1u64 << s);
        }
        let p = self.extract(a, 0, w - s);
        let z = self.c(0, s);
        self.concat(vec![p, z])
    }
    pub fn lshr_c(&mut self, a: Id, s: u8) -> Id {
        if self.raw {
            let w = self.w(a);
            if s >= w {
                return self.c(0, w);
            }
            let n = self.c(s as u64, w);
            return self.plain(w, K::LShr(a, n));
        }
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.c(0, w);
        }
        let p = self.extract(a, s, w - s);
        self.zext(p, w)
    }
    pub fn ashr_c(&mut self, a: Id, s: u8) -> Id {
        if self.raw {
            let w = self.w(a);
            return self.plain(w, K::AShrC(a, s.min(w - 1)));
        }
        let w = self.w(a);
        let s = s.min(w - 1);
        if s == 0 {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.c((sext64(v, w) >> s) as u64, w);
        }
        if self.n(a).slo >= 0 {
            return self.lshr_c(a, s);
        }
        match self.n(a).k.clone() {
            K::AShrC(b, m) => return self.ashr_c(b, (m + s).min(w - 1)),
            K::SExt(b) if s < self.w(b) => {
                let x = self.ashr_c(b, s);
                return self.sext(x, w);
            }
            K::Lin(t, c) => {
                let m = mask(s);
                let (mut l, mut h) = (sext64(c, w) as i128, sext64(c, w) as i128);
                for &(x, co) in t.iter() {
                    let n = self.n(x);
                    let co = sext64(co, w) as i128;
                    let (p, q) = (n.slo as i128 * co, n.shi as i128 * co);
                    l += p.min(q);
                    h += p.max(q);
                }
                let exact = l >= smin(w) as i128 && h <= smax(w) as i128;
                if exact && c & m == 0 && t.iter().all(|x| x.1 & m == 0) {
                    let t = t.iter().map(|&(x, co)| (x, (sext64(co, w) >> s) as u64)).collect();
                    return self.from_lin(w, t, (sext64(c, w) >> s) as u64);
                }
                if w < 32 && exact {
                    let e = self.sext(a, 32);
                    let r = self.ashr_c(e, s);
                    return self.trunc(r, w);
                }
            }
            _ => {}
        }
        self.intern(w, K::AShrC(a, s))
    }
    pub fn shift(&mut self, op: u8, a: Id, b: Id) -> Id {
        if let Some(s) = self.cv(b) {
            let s = s.min(255) as u8;
            return match op {
                0 => self.shl_c(a, s),
                1 => self.lshr_c(a, s),
                _ => self.ashr_c(a, s),
            };
        }
        let w = self.w(a);
        match op {
            0 => self.intern(w, K::Shl(a, b)),
            1 => self.intern(w, K::LShr(a, b)),
            _ => self.intern(w, K::AShr(a, b)),
        }
    }

    pub fn not(&mut self, a: Id) -> Id {
        if self.raw {
            return self.plain(self.w(a), K::Not(a));
        }
        let w = self.w(a);
        if let Some(v) = self.cv(a) {
            return self.c(!v, w);
        }
        match self.n(a).k.clone() {
            K::Not(b) => b,
            K::Concat(p) => {
                let v = p.iter().map(|&x| self.not(x)).collect();
                self.concat(v)
            }
            _ => self.intern(w, K::Not(a)),
        }
    }

    /// classes per bit: 0 take a, 1 take b, 2 not a, 3 not b, 4 const 0, 5 const 1, 6 both
    fn bitop(&mut self, op: u8, a: Id, b: Id) -> Option<Id> {
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        let (az, ao, bz, bo) = (na.kz, na.ko, nb.kz, nb.ko);
        let cls = |i: u8| -> u8 {
            let m = 1u64 << i;
            let (az, ao, bz, bo) = (az & m != 0, ao & m != 0, bz & m != 0, bo & m != 0);
            match op {
                0 => {
                    if az || bz {
                        4
                    } else if ao && bo {
                        5
                    } else if ao {
                        1
                    } else if bo {
                        0
                    } else {
                        6
                    }
                }
                1 => {
                    if ao || bo {
                        5
                    } else if az && bz {
                        4
                    } else if az {
                        1
                    } else if bz {
                        0
                    } else {
                        6
                    }
                }
                _ => {
                    let ka = az || ao;
                    let kb = bz || bo;
                    if ka && kb {
                        if ao != bo {
                            5
                        } else {
                            4
                        }
                    } else if az {
                        1
                    } else if ao {
                        3
                    } else if bz {
                        0
                    } else if bo {
                        2
                    } else {
                        6
                    }
                }
            }
        };
        let mut runs: Vec<(u8, u8, u8)> = vec![]; // class, lo, width
        for i in 0..w {
            let c = cls(i);
            match runs.last_mut() {
                Some(r) if r.0 == c => r.2 += 1,
                _ => runs.push((c, i, 1)),
            }
        }
        if runs.len() == 1 && runs[0].0 == 6 {
            return None;
        }
        if runs.len() > 33 {
            return None;
        }
        let mut out = vec![];
        for &(c, lo, n) in runs.iter().rev() {
            let p = match c {
                0 => self.extract(a, lo, n),
                1 => self.extract(b, lo, n),
                2 => {
                    let e = self.extract(a, lo, n);
                    self.not(e)
                }
                3 => {
                    let e = self.extract(b, lo, n);
                    self.not(e)
                }
                4 => self.c(0, n),
                5 => self.c(u64::MAX, n),
                _ => {
                    let (x, y) = (self.extract(a, lo, n), self.extract(b, lo, n));
                    match op {
                        0 => self.and(x, y),
                        1 => self.or(x, y),
                        _ => self.xor(x, y),
                    }
                }
            };
            out.push(p);
        }
        Some(self.concat(out))
    }

    pub fn and(&mut self, a: Id, b: Id) -> Id {
        if self.raw && a != b {
            let w = self.w(a);
            return match (self.cv(a), self.cv(b)) {
                (Some(0), _) | (_, Some(0)) => self.c(0, w),
                (Some(x), _) if x == mask(w) => b,
                (_, Some(x)) if x == mask(w) => a,
                _ => self.plain(w, K::And(a, b)),
            };
        }
        let w = self.w(a);
        if a == b {
            return a;
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x & y, w);
        }
        if let Some(r) = self.bitop(0, a, b) {
            return r;
        }
        if w == 1 {
            if let K::Not(x) = self.n(a).k {
                if x == b {
                    return self.c(0, 1);
                }
            }
            if let K::Not(x) = self.n(b).k {
                if x == a {
                    return self.c(0, 1);
                }
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.intern(w, K::And(a, b))
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        if self.raw && a != b {
            let w = self.w(a);
            return match (self.cv(a), self.cv(b)) {
                (Some(0), _) => b,
                (_, Some(0)) => a,
                (Some(x), _) | (_, Some(x)) if x == mask(w) => self.c(x, w),
                _ => self.plain(w, K::Or(a, b)),
            };
        }
        let w = self.w(a);
        if a == b {
            return a;
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x | y, w);
        }
        if let Some(r) = self.bitop(1, a, b) {
            return r;
        }
        if w == 1 {
            if let K::Not(x) = self.n(a).k {
                if x == b {
                    return self.c(1, 1);
                }
            }
            if let K::Not(x) = self.n(b).k {
                if x == a {
                    return self.c(1, 1);
                }
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.intern(w, K::Or(a, b))
    }
    pub fn xor(&mut self, a: Id, b: Id) -> Id {
        if self.raw {
            return self.plain(self.w(a), K::Xor(a, b));
        }
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x ^ y, w);
        }
        if let Some(r) = self.bitop(2, a, b) {
            return r;
        }
        if let (K::Not(x), K::Not(y)) = (self.n(a).k.clone(), self.n(b).k.clone()) {
            return self.xor(x, y);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.intern(w, K::Xor(a, b))
    }

    // ---- predicates ----

    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        if self.raw {
            return self.plain(1, K::Eq(a, b));
        }
        if a == b {
            return self.c(1, 1);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((x == y) as u64, 1);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.uhi < nb.ulo
            || nb.uhi < na.ulo
            || na.shi < nb.slo
            || nb.shi < na.slo
            || ((na.ko & nb.kz) | (na.kz & nb.ko)) & mask(w) != 0
        {
            return self.c(0, 1);
        }
        if w == 1 {
            let (x, y) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
            return match self.cv(y) {
                Some(1) => x,
                Some(_) => self.not(x),
                None => {
                    let z = self.xor(x, y);
                    self.not(z)
                }
            };
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(v) = self.cv(b) {
            match self.n(a).k.clone() {
                K::Concat(p) => {
                    let mut off = w;
                    let mut r = self.c(1, 1);
                    for &x in p.iter() {
                        let xw = self.w(x);
                        off -= xw;
                        let k = self.c(v >> off, xw);
                        let e = self.eq(x, k);
                        r = self.and(r, e);
                        if self.cv(r) == Some(0) {
                            return r;
                        }
                    }
                    return r;
                }
                K::Ite(c, x, y) if self.cv(x).is_some() || self.cv(y).is_some() => {
                    let (ex, ey) = (self.eq(x, b), self.eq(y, b));
                    return self.ite(c, ex, ey);
                }
                K::SExt(x) => {
                    let xw = self.w(x);
                    if sext64(v & mask(xw), xw) as u64 & mask(w) == v {
                        let k = self.c(v, xw);
                        return self.eq(x, k);
                    }
                    return self.c(0, 1);
                }
                K::Not(x) => {
                    let k = self.c(!v, w);
                    return self.eq(x, k);
                }
                K::Abs(x) if v == 0 => return self.eq(x, b),
                _ => {}
            }
        } else if let (K::Concat(p), K::Concat(q)) = (self.n(a).k.clone(), self.n(b).k.clone()) {
            // cut at common boundaries
            if p.len() + q.len() <= 40 {
                let mut cuts = vec![0u8, w];
                for l in [&p, &q] {
                    let mut off = w;
                    for &x in l.iter() {
                        off -= self.w(x);
                        cuts.push(off);
                    }
                }
                cuts.sort_unstable();
                cuts.dedup();
                let mut r = self.c(1, 1);
                for c in cuts.windows(2) {
                    let (x, y) = (self.extract(a, c[0], c[1] - c[0]), self.extract(b, c[0], c[1] - c[0]));
                    let e = self.eq(x, y);
                    r = self.and(r, e);
                }
                return r;
            }
        }
        let lin = |s: &Self, x: Id| matches!(s.n(x).k, K::Lin(..));
        if lin(self, a) || lin(self, b) {
            let d = self.sub(a, b);
            if let Some(v) = self.cv(d) {
                return self.c((v == 0) as u64, 1);
            }
            let n = self.n(d);
            if n.ulo > 0 || n.slo > 0 || n.shi < 0 {
                return self.c(0, 1);
            }
            let (mut t, mut c) = self.to_lin(d);
            if sext64(t[0].1, w) < 0 {
                for x in &mut t {
                    x.1 = x.1.wrapping_neg() & mask(w);
                }
                c = c.wrapping_neg() & mask(w);
            }
            let l = self.from_lin(w, t, 0);
            let k = self.c(c.wrapping_neg(), w);
            if !lin(self, l) {
                return self.eq(l, k);
            }
            let z = self.n(l);
            if (z.ulo > self.n(k).ulo) || z.uhi < self.n(k).ulo || z.slo > self.n(k).slo || z.shi < self.n(k).slo {
                return self.c(0, 1);
            }
            return self.intern(1, K::Eq(l, k));
        }
        let (a, b) = if a <= b || self.cv(b).is_some() { (a, b) } else { (b, a) };
        self.intern(1, K::Eq(a, b))
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        if self.raw {
            return self.plain(1, K::Ult(a, b));
        }
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if a == b || na.ulo >= nb.uhi {
            return self.c(0, 1);
        }
        if na.uhi < nb.ulo {
            return self.c(1, 1);
        }
        if w == 1 {
            let x = self.not(a);
            return self.and(x, b);
        }
        if self.cv(b) == Some(1) {
            let z = self.c(0, w);
            return self.eq(a, z);
        }
        if self.cv(a) == Some(0) {
            let e = self.eq(a, b);
            return self.not(e);
        }
        // drop common zero extensions
        let top = |s: &Self, x: Id| -> u8 { (64 - (!s.n(x).kz).leading_zeros()) as u8 };
        let h = top(self, a).max(top(self, b)).max(1);
        if h < w {
            let conc = |s: &Self, x: Id| matches!(s.n(x).k, K::Concat(..) | K::Const(_));
            if conc(self, a) && conc(self, b) {
                let (x, y) = (self.extract(a, 0, h), self.extract(b, 0, h));
                return self.ult(x, y);
            }
        }
        self.intern(1, K::Ult(a, b))
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        if self.raw {
            return self.plain(1, K::Slt(a, b));
        }
        let (na, nb) = (self.n(a), self.n(b));
        if a == b || na.slo >= nb.shi {
            return self.c(0, 1);
        }
        if na.shi < nb.slo {
            return self.c(1, 1);
        }
        if na.slo >= 0 && nb.slo >= 0 {
            return self.ult(a, b);
        }
        if let (K::SExt(x), K::SExt(y)) = (self.n(a).k.clone(), self.n(b).k.clone()) {
            if self.w(x) == self.w(y) {
                return self.slt(x, y);
            }
        }
        if let (K::SExt(x), Some(v)) = (self.n(a).k.clone(), self.cv(b)) {
            let (xw, bw) = (self.w(x), self.w(b));
            let s = sext64(v, bw);
            if s >= smin(xw) && s <= smax(xw) {
                let k = self.c(v, xw);
                return self.slt(x, k);
            }
        }
        if let (Some(v), K::SExt(x)) = (self.cv(a), self.n(b).k.clone()) {
            let (xw, aw) = (self.w(x), self.w(a));
            let s = sext64(v, aw);
            if s >= smin(xw) && s <= smax(xw) {
                let k = self.c(v, xw);
                return self.slt(k, x);
            }
        }
        self.intern(1, K::Slt(a, b))
    }
    pub fn ule(&mut self, a: Id, b: Id) -> Id {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn sle(&mut self, a: Id, b: Id) -> Id {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        if let Some(v) = self.cv(c) {
            return if v != 0 { a } else { b };
        }
        if self.raw {
            return self.plain(self.w(a), K::Ite(c, a, b));
        }
        if let K::Not(x) = self.n(c).k {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), _) => return self.or(c, b),
                (Some(_), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (_, Some(_)) => return self.and(c, a),
                _ => {}
            }
        } else {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return self.zext(c, w),
                (Some(0), Some(1)) => {
                    let n = self.not(c);
                    return self.zext(n, w);
                }
                (Some(x), Some(0)) if x == mask(w) => return self.sext(c, w),
                _ => {}
            }
        }
        // max/min and absolute value written as comparisons
        if let K::Slt(x, z) = self.n(c).k {
            if self.cv(z) == Some(0) && b == x {
                let nx = self.neg(x);
                if nx == a {
                    return self.abs(x);
                }
            }
        }
        self.intern(w, K::Ite(c, a, b))
    }

    // ---- queries ----

    pub fn varset(&mut self, id: Id) -> Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&id) {
            return v.clone();
        }
        // iterative post-order
        let mut stack = vec![id];
        while let Some(&x) = stack.last() {
            if self.varsets.contains_key(&x) {
                stack.pop();
                continue;
            }
            let kids = self.kids(x);
            let missing: Vec<Id> = kids.iter().copied().filter(|k| !self.varsets.contains_key(k)).collect();
            if missing.is_empty() {
                let v = if let K::Var(v) = self.n(x).k {
                    Rc::new(vec![v])
                } else if kids.len() == 1 {
                    self.varsets[&kids[0]].clone()
                } else {
                    let mut s: Vec<u32> = vec![];
                    for k in kids {
                        s.extend(self.varsets[&k].iter());
                    }
                    s.sort_unstable();
                    s.dedup();
                    Rc::new(s)
                };
                self.varsets.insert(x, v);
                stack.pop();
            } else {
                stack.extend(missing);
            }
        }
        self.varsets[&id].clone()
    }

    pub fn kids(&self, id: Id) -> Vec<Id> {
        match &self.n(id).k {
            K::Const(_) | K::Var(_) => vec![],
            K::Lin(t, _) => t.iter().map(|x| x.0).collect(),
            K::Concat(p) | K::F(_, p) => p.to_vec(),
            K::Not(a) | K::AShrC(a, _) | K::SExt(a) | K::Extract(a, _) | K::Abs(a) => vec![*a],
            K::Ite(a, b, c) => vec![*a, *b, *c],
            K::Mul(a, b)
            | K::UDiv(a, b)
            | K::URem(a, b)
            | K::SDiv(a, b)
            | K::SRem(a, b)
            | K::And(a, b)
            | K::Or(a, b)
            | K::Xor(a, b)
            | K::Shl(a, b)
            | K::LShr(a, b)
            | K::AShr(a, b)
            | K::Eq(a, b)
            | K::Ult(a, b)
            | K::Slt(a, b) => vec![*a, *b],
        }
    }

    /// the expression with other variables in place of those for uninitialised memory
    pub fn refresh(&mut self, root: Id) -> Id {
        let mut done: HashMap<Id, Id> = HashMap::new();
        let mut stack = vec![root];
        while let Some(&x) = stack.last() {
            if done.contains_key(&x) {
                stack.pop();
                continue;
            }
            let miss: Vec<Id> = self.kids(x).into_iter().filter(|k| !done.contains_key(k)).collect();
            if !miss.is_empty() {
                stack.extend(miss);
                continue;
            }
            stack.pop();
            let n = self.n(x).clone();
            let w = n.w;
            let g = |k: Id| done[&k];
            if self.kids(x).iter().all(|k| done[k] == *k) && !matches!(n.k, K::Var(_)) {
                done.insert(x, x);
                continue;
            }
            let r = match n.k {
                K::Const(_) => x,
                K::Var(v) => {
                    let mut i = self.vars[v as usize].clone();
                    if i.uninit {
                        i.ord ^= 1 << 31;
                        self.var(i)
                    } else {
                        x
                    }
                }
                K::Lin(t, c) => {
                    let mut s = self.c(c, w);
                    for &(a, co) in t.iter() {
                        let y = self.scale(g(a), co);
                        s = self.add(s, y);
                    }
                    s
                }
                K::Concat(p) => {
                    let p = p.iter().map(|&k| g(k)).collect();
                    self.concat(p)
                }
                K::Not(a) => self.not(g(a)),
                K::AShrC(a, s) => self.ashr_c(g(a), s),
                K::SExt(a) => self.sext(g(a), w),
                K::Extract(a, lo) => self.extract(g(a), lo, w),
                K::Abs(a) => self.abs(g(a)),
                K::Ite(a, b, c) => self.ite(g(a), g(b), g(c)),
                K::Mul(a, b) => self.mul(g(a), g(b)),
                K::UDiv(a, b) => self.udiv(g(a), g(b)),
                K::URem(a, b) => self.urem(g(a), g(b)),
                K::SDiv(a, b) => self.sdiv(g(a), g(b)),
                K::SRem(a, b) => self.srem(g(a), g(b)),
                K::And(a, b) => self.and(g(a), g(b)),
                K::Or(a, b) => self.or(g(a), g(b)),
                K::Xor(a, b) => self.xor(g(a), g(b)),
                K::Shl(a, b) => self.shift(0, g(a), g(b)),
                K::LShr(a, b) => self.shift(1, g(a), g(b)),
                K::AShr(a, b) => self.shift(2, g(a), g(b)),
                K::Eq(a, b) => self.eq(g(a), g(b)),
                K::Ult(a, b) => self.ult(g(a), g(b)),
                K::Slt(a, b) => self.slt(g(a), g(b)),
                K::F(o, p) => {
                    let p: Vec<Id> = p.iter().map(|&k| g(k)).collect();
                    self.float(o, &p, w)
                }
            };
            done.insert(x, r);
        }
        done[&root]
    }

    /// value under an assignment of the variables
    pub fn eval(&self, id: Id, model: &dyn Fn(u32) -> u64, memo: &mut HashMap<Id, u64>) -> u64 {
        if let K::Const(v) = self.n(id).k {
            return v;
        }
        if let Some(&v) = memo.get(&id) {
            return v;
        }
        let mut stack = vec![id];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) || matches!(self.n(x).k, K::Const(_)) {
                stack.pop();
                continue;
            }
            let missing: Vec<Id> = self
                .kids(x)
                .into_iter()
                .filter(|k| !matches!(self.n(*k).k, K::Const(_)) && !memo.contains_key(k))
                .collect();
            if !missing.is_empty() {
                stack.extend(missing);
                continue;
            }
            let n = self.n(x);
            let w = n.w;
            let g = |k: Id| match self.n(k).k {
                K::Const(v) => v,
                _ => memo[&k],
            };
            let sg = |k: Id| sext64(g(k), self.w(k));
            let v = match &n.k {
                K::Const(v) => *v,
                K::Var(v) => model(*v),
                K::Lin(t, c) => t.iter().fold(*c, |s, &(a, co)| s.wrapping_add(g(a).wrapping_mul(co))),
                K::Mul(a, b) => g(*a).wrapping_mul(g(*b)),
                K::UDiv(a, b) => g(*a).checked_div(g(*b)).unwrap_or(u64::MAX),
                K::URem(a, b) => g(*a).checked_rem(g(*b)).unwrap_or(g(*a)),
                K::SDiv(a, b) => match sg(*b) {
                    0 => {
                        if sg(*a) >= 0 {
                            u64::MAX
                        } else {
                            1
                        }
                    }
                    d => (sg(*a) as i128 / d as i128) as u64,
                },
                K::SRem(a, b) => match sg(*b) {
                    0 => g(*a),
                    d => (sg(*a) as i128 % d as i128) as u64,
                },
                K::And(a, b) => g(*a) & g(*b),
                K::Or(a, b) => g(*a) | g(*b),
                K::Xor(a, b) => g(*a) ^ g(*b),
                K::Not(a) => !g(*a),
                K::Shl(a, b) => {
                    if g(*b) >= w as u64 {
                        0
                    } else {
                        g(*a) << g(*b)
                    }
                }
                K::LShr(a, b) => {
                    if g(*b) >= w as u64 {
                        0
                    } else {
                        g(*a) >> g(*b)
                    }
                }
                K::AShr(a, b) => (sg(*a) >> g(*b).min(63)) as u64,
                K::AShrC(a, s) => (sg(*a) >> s) as u64,
                K::SExt(a) => sg(*a) as u64,
                K::Extract(a, lo) => g(*a) >> lo,
                K::Concat(p) => {
                    let mut v = 0u64;
                    for &q in p.iter() {
                        let qw = self.w(q);
                        v = if qw >= 64 { g(q) } else { (v << qw) | g(q) };
                    }
                    v
                }
                K::Ite(c, a, b) => {
                    if g(*c) != 0 {
                        g(*a)
                    } else {
                        g(*b)
                    }
                }
                K::Abs(a) => sg(*a).unsigned_abs(),
                K::Eq(a, b) => (g(*a) == g(*b)) as u64,
                K::Ult(a, b) => (g(*a) < g(*b)) as u64,
                K::Slt(a, b) => (sg(*a) < sg(*b)) as u64,
                K::F(o, p) => {
                    let v: Vec<u64> = p.iter().map(|&k| g(k)).collect();
                    let kw: Vec<u8> = p.iter().map(|&k| self.w(k)).collect();
                    o.eval(&v, &kw, w)
                }
            };
            memo.insert(x, v & mask(w));
            stack.pop();
        }
        memo[&id]
    }

    /// SMT-LIB text of a node with operands given by `name`
    pub fn smt_op(&self, id: Id, name: &dyn Fn(Id) -> String) -> String {
        let n = self.n(id);
        let w = n.w;
        let bin = |op: &str, a: Id, b: Id| format!("({} {} {})", op, name(a), name(b));
        match &n.k {
            K::Const(v) => format!("(_ bv{} {})", v, w),
            K::Var(v) => format!("v{}", v),
            K::Lin(t, c) => {
                let mut parts = vec![];
                for &(a, co) in t.iter() {
                    if co == 1 {
                        parts.push(name(a));
                    } else if co == mask(w) {
                        parts.push(format!("(bvneg {})", name(a)));
                    } else {
                        let s = sext64(co, w);
                        if s < 0 && s != i64::MIN {
                            parts.push(format!("(bvneg (bvmul (_ bv{} {}) {}))", s.unsigned_abs(), w, name(a)));
                        } else {
                            parts.push(format!("(bvmul (_ bv{} {}) {})", co, w, name(a)));
                        }
                    }
                }
                if *c != 0 || parts.is_empty() {
                    parts.push(format!("(_ bv{} {})", c, w));
                }
                if parts.len() == 1 {
                    parts.pop().unwrap()
                } else {
                    format!("(bvadd {})", parts.join(" "))
                }
            }
            K::Mul(a, b) => bin("bvmul", *a, *b),
            K::UDiv(a, b) => bin("bvudiv", *a, *b),
            K::URem(a, b) => bin("bvurem", *a, *b),
            K::SDiv(a, b) => bin("bvsdiv", *a, *b),
            K::SRem(a, b) => bin("bvsrem", *a, *b),
            K::And(a, b) => bin("bvand", *a, *b),
            K::Or(a, b) => bin("bvor", *a, *b),
            K::Xor(a, b) => bin("bvxor", *a, *b),
            K::Not(a) => format!("(bvnot {})", name(*a)),
            K::Shl(a, b) => bin("bvshl", *a, *b),
            K::LShr(a, b) => bin("bvlshr", *a, *b),
            K::AShr(a, b) => bin("bvashr", *a, *b),
            K::AShrC(a, s) => format!("(bvashr {} (_ bv{} {}))", name(*a), s, w),
            K::SExt(a) => format!("((_ sign_extend {}) {})", w - self.w(*a), name(*a)),
            K::Extract(a, lo) => format!("((_ extract {} {}) {})", lo + w - 1, lo, name(*a)),
            K::Concat(p) => {
                let mut s = name(p[0]);
                for &x in &p[1..] {
                    s = format!("(concat {} {})", s, name(x));
                }
                s
            }
            K::Ite(c, a, b) => format!("(ite (= {} #b1) {} {})", name(*c), name(*a), name(*b)),
            K::Abs(a) => format!("(ite (bvslt {} (_ bv0 {})) (bvneg {}) {})", name(*a), w, name(*a), name(*a)),
            K::Eq(a, b) => format!("(ite (= {} {}) #b1 #b0)", name(*a), name(*b)),
            K::Ult(a, b) => format!("(ite (bvult {} {}) #b1 #b0)", name(*a), name(*b)),
            K::Slt(a, b) => format!("(ite (bvslt {} {}) #b1 #b0)", name(*a), name(*b)),
            K::F(o, p) => o.smt(&p.iter().map(|&k| name(k)).collect::<Vec<_>>(), w),
        }
    }
}

impl Ctx {
    /// Readable form, down to the given depth
    pub fn show(&self, e: Id, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 {
            return format!("#{}", e);
        }
        let s = |x: Id| self.show(x, depth - 1);
        match &n.k {
            K::Const(v) => format!("{}", v),
            K::Var(v) => format!("v{}", v),
            K::Lin(t, c) => {
                let mut p: Vec<String> = t.iter().map(|(x, k)| format!("{}*{}", sext64(*k, n.w), s(*x))).collect();
                if *c != 0 {
                    p.push(format!("{}", sext64(*c, n.w)));
                }
                format!("({}):{}", p.join("+"), n.w)
            }
            K::Mul(a, b) => format!("({}*{})", s(*a), s(*b)),
            K::UDiv(a, b) => format!("({}/u{})", s(*a), s(*b)),
            K::URem(a, b) => format!("({}%u{})", s(*a), s(*b)),
            K::SDiv(a, b) => format!("({}/s{})", s(*a), s(*b)),
            K::SRem(a, b) => format!("({}%s{})", s(*a), s(*b)),
            K::And(a, b) => format!("({}&{})", s(*a), s(*b)),
            K::Or(a, b) => format!("({}|{})", s(*a), s(*b)),
            K::Xor(a, b) => format!("({}^{})", s(*a), s(*b)),
            K::Not(a) => format!("~{}", s(*a)),
            K::Shl(a, b) => format!("({}<<{})", s(*a), s(*b)),
            K::LShr(a, b) => format!("({}>>{})", s(*a), s(*b)),
            K::AShr(a, b) => format!("({}>>s{})", s(*a), s(*b)),
            K::AShrC(a, b) => format!("({}>>s{})", s(*a), b),
            K::SExt(a) => format!("sext{}({})", n.w, s(*a)),
            K::Extract(a, lo) => format!("{}[{}..{}]", s(*a), lo, lo + n.w - 1),
            K::Concat(v) => format!("{{{}}}", v.iter().map(|x| format!("{}:{}", s(*x), self.n(*x).w)).collect::<Vec<_>>().join(" ")),
            K::Ite(c, a, b) => format!("({} ? {} : {})", s(*c), s(*a), s(*b)),
            K::Abs(a) => format!("|{}|", s(*a)),
            K::Eq(a, b) => format!("({}=={})", s(*a), s(*b)),
            K::Ult(a, b) => format!("({}<u{})", s(*a), s(*b)),
            K::Slt(a, b) => format!("({}<s{})", s(*a), s(*b)),
            K::F(o, p) => format!("{:?}({})", o, p.iter().map(|x| s(*x)).collect::<Vec<_>>().join(", ")),
        }
    }
}
