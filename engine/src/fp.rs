//! Floating point: operations on the bit patterns of f32 and f64.

use crate::expr::*;

/// rounding to an integral value
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Round {
    Floor,
    Ceil,
    Trunc,
    Even,
    Away,
}

/// the second number is the width of the format, 32 or 64
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp {
    Add(u8),
    Sub(u8),
    Mul(u8),
    Div(u8),
    Rem(u8),
    Fma(u8),
    Sqrt(u8),
    Round(Round, u8),
    /// comparisons that are false for NaN
    Lt(u8),
    Le(u8),
    Eq(u8),
    NaN(u8),
    /// from an integer, signed or not
    From(bool, u8),
    /// saturating conversion to an integer
    To(bool, u8),
    /// conversion from the format to the other one
    Convert(u8),
}

macro_rules! eval {
    ($t:ty, $bits:ident, $g:expr, $op:expr, $kw:expr, $w:expr) => {{
        let f = |i: usize| <$t>::from_bits($g[i] as $bits);
        match $op {
            FOp::Add(_) => (f(0) + f(1)).to_bits() as u64,
            FOp::Sub(_) => (f(0) - f(1)).to_bits() as u64,
            FOp::Mul(_) => (f(0) * f(1)).to_bits() as u64,
            FOp::Div(_) => (f(0) / f(1)).to_bits() as u64,
            FOp::Rem(_) => (f(0) % f(1)).to_bits() as u64,
            FOp::Fma(_) => f(0).mul_add(f(1), f(2)).to_bits() as u64,
            FOp::Sqrt(_) => f(0).sqrt().to_bits() as u64,
            FOp::Round(r, _) => match r {
                Round::Floor => f(0).floor(),
                Round::Ceil => f(0).ceil(),
                Round::Trunc => f(0).trunc(),
                Round::Even => f(0).round_ties_even(),
                Round::Away => f(0).round(),
            }
            .to_bits() as u64,
            FOp::Lt(_) => (f(0) < f(1)) as u64,
            FOp::Le(_) => (f(0) <= f(1)) as u64,
            FOp::Eq(_) => (f(0) == f(1)) as u64,
            FOp::NaN(_) => f(0).is_nan() as u64,
            FOp::From(true, _) => (sext64($g[0], $kw[0]) as $t).to_bits() as u64,
            FOp::From(false, _) => ($g[0] as $t).to_bits() as u64,
            FOp::To(true, _) => (f(0) as i64).clamp(-1i64 << ($w - 1), ((1u64 << ($w - 1)) - 1) as i64) as u64,
            FOp::To(false, _) => (f(0) as u64).min(mask($w)),
            FOp::Convert(32) => (f(0) as f64).to_bits(),
            FOp::Convert(_) => (f(0) as f32).to_bits() as u64,
        }
    }};
}

fn format(w: u8) -> &'static str {
    if w == 32 {
        "8 24"
    } else {
        "11 53"
    }
}

/// an exactly representable power of two as a number of the format
fn power(e: u32, neg: bool, w: u8) -> String {
    let v = 2f64.powi(e as i32) * if neg { -1.0 } else { 1.0 };
    let bits = if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
    format!("((_ to_fp {}) (_ bv{} {}))", format(w), bits, w)
}

impl FOp {
    pub fn width(&self) -> u8 {
        match *self {
            FOp::Add(w) | FOp::Sub(w) | FOp::Mul(w) | FOp::Div(w) | FOp::Rem(w) | FOp::Fma(w) | FOp::Sqrt(w) => w,
            FOp::Round(_, w) | FOp::Lt(w) | FOp::Le(w) | FOp::Eq(w) | FOp::NaN(w) => w,
            FOp::From(_, w) | FOp::To(_, w) | FOp::Convert(w) => w,
        }
    }

    /// operands with their widths; width of the result
    pub fn eval(&self, g: &[u64], kw: &[u8], w: u8) -> u64 {
        if self.width() == 32 {
            eval!(f32, u32, g, *self, kw, w)
        } else {
            eval!(f64, u64, g, *self, kw, w)
        }
    }

    pub fn smt(&self, a: &[String], w: u8) -> String {
        let fw = self.width();
        let fm = format(fw);
        let f = |i: usize| format!("((_ to_fp {}) {})", fm, a[i]);
        let bits = |s: String| format!("(fp.to_ieee_bv {})", s);
        let bit = |s: String| format!("(ite {} #b1 #b0)", s);
        let two = |op: &str| bits(format!("({} RNE {} {})", op, f(0), f(1)));
        match *self {
            FOp::Add(_) => two("fp.add"),
            FOp::Sub(_) => two("fp.sub"),
            FOp::Mul(_) => two("fp.mul"),
            FOp::Div(_) => two("fp.div"),
            // no operation of SMT-LIB: the caller does not build it of unknown values
            FOp::Rem(_) => "unsupported".into(),
            FOp::Fma(_) => bits(format!("(fp.fma RNE {} {} {})", f(0), f(1), f(2))),
            FOp::Sqrt(_) => bits(format!("(fp.sqrt RNE {})", f(0))),
            FOp::Round(r, _) => {
                let m = match r {
                    Round::Floor => "RTN",
                    Round::Ceil => "RTP",
                    Round::Trunc => "RTZ",
                    Round::Even => "RNE",
                    Round::Away => "RNA",
                };
                bits(format!("(fp.roundToIntegral {} {})", m, f(0)))
            }
            FOp::Lt(_) => bit(format!("(fp.lt {} {})", f(0), f(1))),
            FOp::Le(_) => bit(format!("(fp.leq {} {})", f(0), f(1))),
            FOp::Eq(_) => bit(format!("(fp.eq {} {})", f(0), f(1))),
            FOp::NaN(_) => bit(format!("(fp.isNaN {})", f(0))),
            FOp::From(true, _) => bits(format!("((_ to_fp {}) RNE {})", fm, a[0])),
            FOp::From(false, _) => bits(format!("((_ to_fp_unsigned {}) RNE {})", fm, a[0])),
            FOp::To(signed, _) => {
                let x = f(0);
                let w1 = w as u32;
                let (low, high, small, hi) = if signed {
                    let lo = format!("(fp.leq {} {})", x, power(w1 - 1, true, fw));
                    (1u64 << (w1 - 1), mask(w - 1), lo, power(w1 - 1, false, fw))
                } else {
                    (0, mask(w), format!("(fp.lt {} ((_ to_fp {}) (_ bv0 {})))", x, fm, fw), power(w1, false, fw))
                };
                let conv = if signed { "fp.to_sbv" } else { "fp.to_ubv" };
                format!(
                    "(ite (fp.isNaN {x}) (_ bv0 {w}) (ite {small} (_ bv{low} {w}) (ite (fp.geq {x} {hi}) (_ bv{high} {w}) ((_ {conv} {w}) RTZ {x}))))"
                )
            }
            FOp::Convert(32) => bits(format!("((_ to_fp 11 53) RNE {})", f(0))),
            FOp::Convert(_) => bits(format!("((_ to_fp 8 24) RNE {})", f(0))),
        }
    }
}
