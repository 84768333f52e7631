//! Exact linear forms of values.
//!
//! The signed (or unsigned) value of many expressions is a sum of inputs and "rounding parts" with rational
//! coefficients: a shift to the right is (value - rounding part) / 2^s, in which the rounding part is one of
//! 0..2^s. In this view the bounds of a sum over several shifted sums are much tighter than those from its
//! operands alone.

use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

/// (sum of coefficients times variables, plus constant) / 2^sh
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Form {
    /// sorted by variable
    pub t: Vec<(u32, i128)>,
    pub c: i128,
    pub sh: u32,
}

#[derive(Default)]
pub struct Forms {
    terms: HashMap<(Id, bool), Rc<Form>>,
    /// input variable, if it is one, and bounds
    pub vars: Vec<(Option<u32>, i128, i128)>,
    inputs: HashMap<(u32, bool), u32>,
    parts: HashMap<(Form, u32), u32>,
}

impl Form {
    pub fn constant(c: i128) -> Form {
        Form { t: vec![], c, sh: 0 }
    }

    fn one(v: u32) -> Form {
        Form { t: vec![(v, 1)], c: 0, sh: 0 }
    }

    fn scale(&mut self, sh: u32) {
        let p = 1i128 << (sh - self.sh);
        self.c *= p;
        self.t.iter_mut().for_each(|v| v.1 *= p);
        self.sh = sh;
    }

    fn normalize(&mut self) {
        while self.sh > 0 && self.c & 1 == 0 && self.t.iter().all(|x| x.1 & 1 == 0) {
            self.sh -= 1;
            self.c /= 2;
            self.t.iter_mut().for_each(|x| x.1 /= 2);
        }
    }

    pub fn add(&mut self, o: &Form, co: i128) {
        let sh = self.sh.max(o.sh);
        self.scale(sh);
        let m = co << (sh - o.sh);
        self.c += m * o.c;
        let mut r = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j == o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                r.push(self.t[i]);
                i += 1;
            } else if i == self.t.len() || o.t[j].0 < self.t[i].0 {
                r.push((o.t[j].0, o.t[j].1 * m));
                j += 1;
            } else {
                let v = self.t[i].1 + o.t[j].1 * m;
                if v != 0 {
                    r.push((self.t[i].0, v));
                }
                i += 1;
                j += 1;
            }
        }
        self.t = r;
        self.normalize();
    }
}

impl Ctx {
    /// integers between which the value lies
    pub fn form_range(&self, f: &Form) -> (i128, i128) {
        let (mut l, mut h) = (f.c, f.c);
        for &(v, co) in &f.t {
            let (_, a, b) = self.forms.vars[v as usize];
            let (p, q) = (co * a, co * b);
            l += p.min(q);
            h += p.max(q);
        }
        (-((-l) >> f.sh), h >> f.sh)
    }

    fn form_fresh(&mut self, lo: i128, hi: i128) -> Form {
        self.forms.vars.push((None, lo, hi));
        Form::one(self.forms.vars.len() as u32 - 1)
    }

    fn form_input(&mut self, v: u32, signed: bool, lo: i128, hi: i128) -> Form {
        if let Some(k) = self.forms.inputs.get(&(v, signed)) {
            return Form::one(*k);
        }
        self.forms.vars.push((Some(v), lo, hi));
        let k = self.forms.vars.len() as u32 - 1;
        self.forms.inputs.insert((v, signed), k);
        Form::one(k)
    }

    /// (value >> sh) = (value - rounding part) / 2^sh
    fn form_shift(&mut self, mut f: Form, sh: u32) -> Form {
        if sh == 0 {
            return f;
        }
        f.normalize();
        let key = (f.clone(), sh);
        let r = match self.forms.parts.get(&key) {
            Some(k) => *k,
            None => {
                self.forms.vars.push((None, 0, (1i128 << sh) - 1));
                let k = self.forms.vars.len() as u32 - 1;
                self.forms.parts.insert(key, k);
                k
            }
        };
        f.add(&Form::one(r), -1);
        f.sh += sh;
        f.normalize();
        f
    }

    pub fn form(&mut self, x: Id, signed: bool) -> Rc<Form> {
        if let Some(f) = self.forms.terms.get(&(x, signed)) {
            return f.clone();
        }
        let n = self.n(x).clone();
        let mut f = self.form_of(n.w, &n.k, signed);
        if let Some(g) = &f {
            if g.t.len() > 400 || g.sh > 50 {
                f = None;
            }
        }
        let f = Rc::new(match f {
            Some(f) => f,
            None if n.slo >= 0 && signed => (*self.form(x, false)).clone(),
            None => {
                if signed {
                    self.form_fresh(n.slo as i128, n.shi as i128)
                } else {
                    self.form_fresh(n.ulo as i128, n.uhi as i128)
                }
            }
        });
        self.forms.terms.insert((x, signed), f.clone());
        f
    }

    /// exact integer sum, with coefficients in the middle of the range of b bits
    pub fn form_sum(&mut self, t: &[(Id, u64)], c: u64, b: u8) -> Option<Form> {
        let mut f = Form::constant(sext64(c & mask(b), b) as i128);
        for &(x, co) in t.iter() {
            let g = self.form(x, true);
            f.add(&g, sext64(co & mask(b), b) as i128);
            if f.t.len() > 400 || f.sh > 50 {
                return None;
            }
        }
        Some(f)
    }

    /// bits sh..sh+w of a sum: only the sum modulo 2^(sh+w) matters
    fn form_window(&mut self, t: &[(Id, u64)], c: u64, sh: u32, w: u32, signed: bool) -> Option<Form> {
        let b = sh + w;
        if b > 62 {
            return None;
        }
        let mut f = self.form_sum(t, c, b as u8)?;
        let (l, h) = self.form_range(&f);
        let p = 1i128 << b;
        let base = if signed { p / 2 } else { 0 };
        let k = (l + base).div_euclid(p);
        if (h + base).div_euclid(p) != k {
            return None;
        }
        f.add(&Form::constant(-k * p), 1);
        Some(self.form_shift(f, sh))
    }

    /// the value of an expression, if it is more than an unknown
    pub fn form_of(&mut self, w: u8, k: &K, signed: bool) -> Option<Form> {
        match k {
            K::Const(v) => Some(Form::constant(if signed { sext64(*v, w) as i128 } else { *v as i128 })),
            K::Var(v) => {
                let i = self.vars[*v as usize].clone();
                if i.signed == signed {
                    let (lo, hi) = if signed { (i.lo as i64 as i128, i.hi as i64 as i128) } else { (i.lo as i128, i.hi as i128) };
                    Some(self.form_input(*v, signed, lo, hi))
                } else {
                    None
                }
            }
            K::Lin(t, c) => {
                if w < 63 {
                    self.form_window(t, *c, 0, w as u32, signed)
                } else if signed {
                    let f = self.form_sum(t, *c, w)?;
                    let (l, h) = self.form_range(&f);
                    if l >= -(1i128 << (w - 1)) && h < (1i128 << (w - 1)) {
                        Some(f)
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            K::SExt(a) if signed => Some((*self.form(*a, true)).clone()),
            K::AShrC(a, sh) if signed => {
                let g = (*self.form(*a, true)).clone();
                Some(self.form_shift(g, *sh as u32))
            }
            K::Concat(p) if p.len() == 2 && self.cv(p[0]) == Some(0) => Some((*self.form(p[1], false)).clone()),
            K::Concat(p) if p.len() == 2 && self.cv(p[1]).is_some() && w < 64 + self.w(p[1]) => {
                let low = self.cv(p[1]).unwrap();
                let mut f = Form::constant(low as i128);
                let z = self.w(p[1]);
                let g = self.form(p[0], signed);
                f.add(&g, 1i128 << z);
                Some(f)
            }
            K::Extract(a, sh) => {
                let m = self.n(*a).clone();
                if let K::Lin(t, c) = &m.k {
                    if let Some(f) = self.form_window(t, *c, *sh as u32, w as u32, signed) {
                        return Some(f);
                    }
                }
                let (l, h) = (m.slo >> sh, m.shi >> sh);
                let fits = if signed {
                    l >= -(1i64 << (w - 1)) && h < (1i64 << (w - 1))
                } else {
                    l >= 0 && (h as u64) <= mask(w)
                };
                if !fits {
                    return None;
                }
                let g = (*self.form(*a, true)).clone();
                Some(self.form_shift(g, *sh as u32))
            }
            _ => None,
        }
    }

    /// a - b as signed or unsigned values
    pub fn form_difference(&mut self, a: Id, b: Id, signed: bool) -> Form {
        let mut f = (*self.form(a, signed)).clone();
        let g = self.form(b, signed);
        f.add(&g, -1);
        f
    }
}
