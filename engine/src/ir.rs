//! Parser for the textual LLVM IR that rustc emits.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Float(u32),
    Ptr,
    Vector(u64, Rc<Ty>),
    Array(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
}

impl Ty {
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(n) | Ty::Float(n) => *n as u64,
            Ty::Ptr => 64,
            Ty::Vector(n, t) => n * t.bits(),
            _ => self.size() * 8,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Float(n) => (*n / 8) as u64,
            Ty::Ptr => 8,
            Ty::Vector(..) => self.size().next_power_of_two(),
            Ty::Array(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Bytes written by a store of this type
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => (*n as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// Distance of array elements
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Float(n) => (*n / 8) as u64,
            Ty::Ptr => 8,
            Ty::Vector(n, t) => (n * t.bits() + 7) / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(f, _) => {
                let mut o = 0;
                for i in 0..f.len() {
                    o = self.field_off(i) + f[i].size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Array(_, t) => i as u64 * t.size(),
            Ty::Vector(_, t) => i as u64 * t.bits() / 8,
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => panic!("count of {:?}", self),
        }
    }
}

/// Constant as written in the IR
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Sym(String),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
    /// Address with an offset
    Offset(Box<Const>, i64),
    /// Arithmetic on addresses
    Bin(char, Box<Const>, Box<Const>),
    Trunc(Box<Const>, u32),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    Const(Const),
    /// number in the constant pool of the loaded program
    Val(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    PtrToInt,
    IntToPtr,
}

#[derive(Clone, Debug)]
pub enum Inst {
    /// could not be parsed
    Bad(String),
    Bin(BinOp, Ty, Op, Op),
    ICmp(Pred, Ty, Op, Op),
    Cast(CastOp, Ty, Op, Ty),
    /// type, address, alignment
    Load(Ty, Op, u64),
    Store(Ty, Op, Op, u64),
    Gep(Ty, Op, Vec<(Ty, Op)>),
    /// base, constant offset, scaled indices (index, width, scale)
    GepC(Op, u64, Vec<(Op, u32, u64)>),
    Alloca(u64, u64),
    Select(Ty, Ty, Op, Op, Op),
    Phi(Ty, Vec<(Op, u32)>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Op>),
    Unreachable,
    Call(Ty, Op, Vec<(Ty, Op)>),
    ExtractValue(Ty, Op, Vec<usize>),
    InsertValue(Ty, Op, Ty, Op, Vec<usize>),
    ExtractElement(Ty, Op, Ty, Op),
    InsertElement(Ty, Op, Op, Ty, Op),
    Shuffle(Ty, Op, Op, Vec<Option<u32>>),
    Freeze(Ty, Op),
    AtomicRmw(String, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    Nop,
}

impl Inst {
    /// operands with their types
    pub fn ops(&mut self) -> Vec<(&mut Op, Ty)> {
        match self {
            Inst::Bin(_, t, a, b) | Inst::ICmp(_, t, a, b) => vec![(a, t.clone()), (b, t.clone())],
            Inst::Cast(_, t, a, _) | Inst::Freeze(t, a) | Inst::ExtractValue(t, a, _) => vec![(a, t.clone())],
            Inst::Load(_, p, _) => vec![(p, Ty::Ptr)],
            Inst::Store(t, v, p, _) => vec![(v, t.clone()), (p, Ty::Ptr)],
            Inst::Gep(_, b, ix) => {
                let mut r = vec![(b, Ty::Ptr)];
                r.extend(ix.iter_mut().map(|(t, o)| (o, t.clone())));
                r
            }
            Inst::GepC(b, _, ix) => {
                let mut r = vec![(b, Ty::Ptr)];
                r.extend(ix.iter_mut().map(|(o, w, _)| (o, Ty::Int(*w))));
                r
            }
            Inst::Select(ct, t, c, a, b) => vec![(c, ct.clone()), (a, t.clone()), (b, t.clone())],
            Inst::Phi(t, v) => v.iter_mut().map(|(o, _)| (o, t.clone())).collect(),
            Inst::CondBr(c, _, _) => vec![(c, Ty::Int(1))],
            Inst::Switch(t, v, _, _) => vec![(v, t.clone())],
            Inst::Ret(t, Some(v)) => vec![(v, t.clone())],
            Inst::Call(_, f, a) => {
                let mut r = vec![(f, Ty::Ptr)];
                r.extend(a.iter_mut().map(|(t, o)| (o, t.clone())));
                r
            }
            Inst::InsertValue(t, a, vt, v, _) => vec![(a, t.clone()), (v, vt.clone())],
            Inst::ExtractElement(t, a, it, i) => vec![(a, t.clone()), (i, it.clone())],
            Inst::InsertElement(t, a, v, it, i) => vec![(a, t.clone()), (v, t.elem(0)), (i, it.clone())],
            Inst::Shuffle(t, a, b, _) => vec![(a, t.clone()), (b, t.clone())],
            Inst::AtomicRmw(_, t, p, v) => vec![(p, Ty::Ptr), (v, t.clone())],
            Inst::CmpXchg(t, p, c, n) => vec![(p, Ty::Ptr), (c, t.clone()), (n, t.clone())],
            _ => vec![],
        }
    }
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<Ty>,
    pub nregs: u32,
    /// (destination register, instruction)
    pub blocks: Vec<Vec<(u32, Inst)>>,
    pub ret: Ty,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
}

#[derive(Default, Debug)]
pub struct Module {
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub noreturn_decls: Vec<String>,
    pub decls: Vec<String>,
    pub aliases: Vec<(String, String)>,
}

pub const NOREG: u32 = u32::MAX;

struct P<'a> {
    s: &'a [u8],
    i: usize,
    types: &'a HashMap<String, Ty>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i..self.s.len().min(self.i + 120)]).into_owned()
    }
    fn err<T>(&self, m: &str) -> R<T> {
        Err(format!("{} at '{}'", m, self.rest()))
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            let end = self.i + t.len();
            let last = t.as_bytes()[t.len() - 1];
            if (last.is_ascii_alphanumeric() || last == b'_')
                && end < self.s.len()
                && (self.s[end].is_ascii_alphanumeric() || self.s[end] == b'_' || self.s[end] == b'.')
            {
                return false;
            }
            self.i = end;
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            self.err(&format!("expected '{}'", t))
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len()
            && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$'))
        {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn peek_word(&mut self) -> String {
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    /// name after % or @
    fn name(&mut self) -> R<String> {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut e = st;
            while e < self.s.len() && self.s[e] != b'"' {
                e += 1;
            }
            self.i = e + 1;
            return Ok(String::from_utf8_lossy(&self.s[st..e]).into_owned());
        }
        let w = self.word();
        if w.is_empty() {
            return self.err("name");
        }
        Ok(w)
    }
    fn int(&mut self) -> R<i128> {
        let w = self.word();
        w.parse::<i128>().map_err(|_| format!("int '{}' at '{}'", w, self.rest()))
    }
    fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        match c {
            b'[' => {
                self.i += 1;
                let n = self.int()? as u64;
                self.need("x")?;
                let t = self.ty()?;
                self.need("]")?;
                Ok(Ty::Array(n, Rc::new(t)))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.struct_body(true)?;
                    self.need(">")?;
                    return Ok(t);
                }
                let n = self.int()? as u64;
                self.need("x")?;
                let t = self.ty()?;
                self.need(">")?;
                Ok(Ty::Vector(n, Rc::new(t)))
            }
            b'{' => self.struct_body(false),
            b'%' => {
                self.i += 1;
                let n = self.name()?;
                self.types.get(&n).cloned().ok_or(format!("unknown type {}", n))
            }
            _ => {
                let st = self.i;
                let w = self.word();
                match w.as_str() {
                    "void" => Ok(Ty::Void),
                    "ptr" => {
                        if self.eat("addrspace") {
                            self.need("(")?;
                            self.int()?;
                            self.need(")")?;
                        }
                        Ok(Ty::Ptr)
                    }
                    "float" => Ok(Ty::Float(32)),
                    "double" => Ok(Ty::Float(64)),
                    "half" => Ok(Ty::Float(16)),
                    "fp128" | "x86_fp80" => Ok(Ty::Float(128)),
                    "label" => Ok(Ty::Label),
                    "metadata" => Ok(Ty::Meta),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ok(Ty::Int(w[1..].parse().unwrap())),
                    _ => {
                        self.i = st;
                        self.err("type")
                    }
                }
            }
        }
    }
    fn struct_body(&mut self, packed: bool) -> R<Ty> {
        self.need("{")?;
        let mut f = vec![];
        if self.eat("}") {
            return Ok(Ty::Struct(Rc::new(f), packed));
        }
        loop {
            f.push(self.ty()?);
            if self.eat("}") {
                break;
            }
            self.need(",")?;
        }
        Ok(Ty::Struct(Rc::new(f), packed))
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.i < self.s.len() && self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    /// skips parameter and return attributes
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.peek() == b'=' {
                    self.i += 1;
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let st = self.i;
            let w = self.word();
            const VALUES: &[&str] = &[
                "true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint",
                "bitcast", "splat", "c", "add", "sub", "xor", "trunc", "asm", "void", "ptr", "none", "blockaddress", "x",
            ];
            let is_ty = w.starts_with('i') && w.len() > 1 && w[1..].chars().all(|c| c.is_ascii_digit());
            if is_ty || VALUES.contains(&w.as_str()) || w == "float" || w == "double" || w == "metadata" || w == "label" {
                self.i = st;
                return;
            }
            if w == "align" {
                if self.peek() == b'(' {
                    self.skip_parens();
                } else {
                    self.word();
                }
                continue;
            }
            if self.i < self.s.len() && self.s[self.i] == b'(' {
                self.skip_parens();
            }
        }
    }
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: String) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    fn value(&mut self, ty: &Ty) -> R<Op> {
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name()?;
            return Ok(Op::Reg(self.reg(n)));
        }
        Ok(Op::Const(self.constant(ty)?))
    }
    fn tyval(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.attrs();
        let v = self.value(&t)?;
        Ok((t, v))
    }
    fn tyconst(&mut self) -> R<(Ty, Const)> {
        let t = self.ty()?;
        self.attrs();
        let v = self.constant(&t)?;
        Ok((t, v))
    }
    fn cbytes(&mut self) -> R<Vec<u8>> {
        // at "
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
                v.push(b'\\');
                self.i += 2;
            } else if self.s[self.i] == b'\\' {
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                self.i += 3;
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        Ok(v)
    }
    /// bit pattern of a floating-point number
    fn float(&mut self, bits: u32) -> R<Const> {
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"+-.".contains(&self.s[self.i])) {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).map_err(|e| e.to_string())?.to_string();
        let single = |v: f64| Const::Int((v as f32).to_bits() as u128);
        let r = match (t.as_str(), bits) {
            ("+inf" | "inf", 32) => single(f64::INFINITY),
            ("-inf", 32) => single(f64::NEG_INFINITY),
            ("+inf" | "inf", 64) => Const::Int(f64::INFINITY.to_bits() as u128),
            ("-inf", 64) => Const::Int(f64::NEG_INFINITY.to_bits() as u128),
            ("+qnan" | "qnan", 32) => Const::Int(0x7FC00000),
            ("-qnan", 32) => Const::Int(0xFFC00000),
            ("+qnan" | "qnan", 64) => Const::Int(0x7FF8000000000000),
            ("-qnan", 64) => Const::Int(0xFFF8000000000000),
            (x, 32 | 64) => {
                if let Some(h) = x.strip_prefix("f0x") {
                    // the pattern itself
                    Const::Int(u64::from_str_radix(h, 16).map_err(|e| e.to_string())? as u128)
                } else if let Some(h) = x.strip_prefix("0x") {
                    // the pattern as a double
                    let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                    if bits == 32 {
                        single(f64::from_bits(v))
                    } else {
                        Const::Int(v as u128)
                    }
                } else if bits == 32 {
                    Const::Int(x.parse::<f32>().map_err(|e| e.to_string())?.to_bits() as u128)
                } else {
                    Const::Int(x.parse::<f64>().map_err(|e| e.to_string())?.to_bits() as u128)
                }
            }
            _ => return self.err("floating-point constant"),
        };
        Ok(r)
    }
    fn constant(&mut self, ty: &Ty) -> R<Const> {
        let c = self.peek();
        if let Ty::Float(n) = ty {
            let digit = |k: usize| self.s.get(k).is_some_and(|x| x.is_ascii_digit());
            let at = self.i;
            let known = |t: &str| self.s[at..].starts_with(t.as_bytes());
            if c == b'-' || c == b'+' || digit(at) || known("f0x") || known("inf") || known("qnan") {
                return self.float(*n);
            }
        }
        match c {
            b'@' => {
                self.i += 1;
                Ok(Const::Sym(self.name()?))
            }
            b'-' | b'0'..=b'9' => {
                let v = self.int()?;
                let bits = ty.bits();
                let m = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                Ok(Const::Int(v as u128 & m))
            }
            b'{' => {
                self.i += 1;
                self.agg("}")
            }
            b'[' => {
                self.i += 1;
                self.agg("]")
            }
            b'<' => {
                self.i += 1;
                if self.eat("{") {
                    let r = self.agg("}")?;
                    self.need(">")?;
                    Ok(r)
                } else {
                    self.agg(">")
                }
            }
            _ => {
                let st = self.i;
                let w = self.word();
                match w.as_str() {
                    "true" => Ok(Const::Int(1)),
                    "false" => Ok(Const::Int(0)),
                    "null" => Ok(Const::Int(0)),
                    "undef" | "poison" => Ok(Const::Undef),
                    "zeroinitializer" => Ok(Const::Zero),
                    "c" => Ok(Const::Bytes(self.cbytes()?)),
                    "splat" => {
                        self.need("(")?;
                        let (t, c) = self.tyconst()?;
                        self.need(")")?;
                        Ok(Const::Agg(vec![(t, c); ty.count()]))
                    }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.need("(")?;
                        let (t, c) = self.tyconst()?;
                        self.need("to")?;
                        let to = self.ty()?;
                        self.need(")")?;
                        if to.bits() < t.bits() {
                            return Ok(Const::Trunc(Box::new(c), to.bits() as u32));
                        }
                        if w == "bitcast" && matches!(t, Ty::Vector(..)) && t != to {
                            return vec_bitcast(&t, &c, &to);
                        }
                        Ok(c)
                    }
                    "getelementptr" => {
                        loop {
                            self.ws();
                            if self.peek() == b'(' {
                                break;
                            }
                            let w = self.word();
                            if self.peek() == b'(' && w == "inrange" {
                                self.skip_parens();
                            }
                        }
                        self.need("(")?;
                        let base_ty = self.ty()?;
                        self.need(",")?;
                        let (_, base) = self.tyconst()?;
                        let mut off: i64 = 0;
                        let mut cur = base_ty;
                        let mut first = true;
                        while self.eat(",") {
                            let (_, ix) = self.tyconst()?;
                            let n = match ix {
                                Const::Int(v) => v as u64 as i64,
                                Const::Zero => 0,
                                _ => return self.err("gep const index"),
                            };
                            if first {
                                off += n * cur.size() as i64;
                                first = false;
                            } else {
                                off += cur.field_off(n as usize) as i64;
                                cur = cur.elem(n as usize);
                            }
                        }
                        self.need(")")?;
                        Ok(Const::Offset(Box::new(base), off))
                    }
                    "add" | "sub" | "xor" | "and" | "or" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.need("(")?;
                        let (_, a) = self.tyconst()?;
                        self.need(",")?;
                        let (_, b) = self.tyconst()?;
                        self.need(")")?;
                        let o = match w.as_str() {
                            "add" => '+',
                            "sub" => '-',
                            "xor" => '^',
                            "and" => '&',
                            _ => '|',
                        };
                        Ok(Const::Bin(o, Box::new(a), Box::new(b)))
                    }
                    _ => {
                        self.i = st;
                        self.err("constant")
                    }
                }
            }
        }
    }
    fn agg(&mut self, close: &str) -> R<Const> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(Const::Agg(v));
        }
        loop {
            v.push(self.tyconst()?);
            if self.eat(close) {
                return Ok(Const::Agg(v));
            }
            self.need(",")?;
        }
    }
    fn label_op(&mut self) -> R<u32> {
        self.need("label")?;
        self.need("%")?;
        let n = self.name()?;
        Ok(self.label(n))
    }
    fn flags(&mut self) {
        const F: &[&str] = &[
            "nuw", "nsw", "exact", "disjoint", "inbounds", "nneg", "nusw", "samesign", "volatile", "fast", "nnan", "ninf", "nsz",
            "arcp", "contract", "afn", "reassoc",
        ];
        loop {
            let w = self.peek_word();
            if F.contains(&w.as_str()) {
                self.word();
            } else {
                return;
            }
        }
    }
    /// alignment at the end of a load or store
    fn align_suffix(&mut self) -> R<u64> {
        while self.peek() != 0 {
            if self.eat(",") {
                if self.eat("align") {
                    return Ok(self.int()? as u64);
                }
                return Ok(1);
            }
            let w = self.word();
            if w == "syncscope" {
                self.skip_parens();
            } else if w.is_empty() {
                break;
            }
        }
        Ok(1)
    }
    fn inst(&mut self) -> R<(u32, Inst)> {
        let mut dst = NOREG;
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name()?;
            dst = self.reg(n);
            self.need("=")?;
        }
        let mut w = self.word();
        while matches!(w.as_str(), "tail" | "musttail" | "notail") {
            w = self.word();
        }
        use BinOp::*;
        let bin = match w.as_str() {
            "add" => Some(Add),
            "sub" => Some(Sub),
            "mul" => Some(Mul),
            "udiv" => Some(UDiv),
            "sdiv" => Some(SDiv),
            "urem" => Some(URem),
            "srem" => Some(SRem),
            "and" => Some(And),
            "or" => Some(Or),
            "xor" => Some(Xor),
            "shl" => Some(Shl),
            "lshr" => Some(LShr),
            "ashr" => Some(AShr),
            _ => None,
        };
        if let Some(op) = bin {
            self.flags();
            let t = self.ty()?;
            let a = self.value(&t)?;
            self.need(",")?;
            let b = self.value(&t)?;
            return Ok((dst, Inst::Bin(op, t, a, b)));
        }
        // floating point: calls of functions of ours
        let operation = |w: &str, t: Ty, a: Vec<(Ty, Op)>| Inst::Call(t, Op::Const(Const::Sym(format!("verif.f.{}", w))), a);
        let r = match w.as_str() {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let t = self.ty()?;
                let a = self.value(&t)?;
                self.need(",")?;
                let b = self.value(&t)?;
                operation(&w, t.clone(), vec![(t.clone(), a), (t, b)])
            }
            "fneg" => {
                self.flags();
                let (t, a) = self.tyval()?;
                operation(&w, t.clone(), vec![(t, a)])
            }
            "fcmp" => {
                self.flags();
                let p = self.word();
                let t = self.ty()?;
                let a = self.value(&t)?;
                self.need(",")?;
                let b = self.value(&t)?;
                let rt = match &t {
                    Ty::Vector(n, _) => Ty::Vector(*n, Box::new(Ty::Int(1)).into()),
                    _ => Ty::Int(1),
                };
                operation(&format!("cmp.{}", p), rt, vec![(t.clone(), a), (t, b)])
            }
            "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
                self.flags();
                let (t, a) = self.tyval()?;
                self.need("to")?;
                let to = self.ty()?;
                operation(&w, to, vec![(t, a)])
            }
            "icmp" => {
                self.flags();
                let p = self.word();
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return self.err("icmp predicate"),
                };
                let t = self.ty()?;
                let a = self.value(&t)?;
                self.need(",")?;
                let b = self.value(&t)?;
                Inst::ICmp(p, t, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                self.flags();
                let (t, a) = self.tyval()?;
                self.need("to")?;
                let to = self.ty()?;
                let op = match w.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => CastOp::Bitcast,
                    "inttoptr" => CastOp::IntToPtr,
                    _ => CastOp::PtrToInt,
                };
                Inst::Cast(op, t, a, to)
            }
            "load" => {
                self.eat("atomic");
                self.flags();
                let t = self.ty()?;
                self.need(",")?;
                let (_, p) = self.tyval()?;
                let a = self.align_suffix()?;
                Inst::Load(t, p, a)
            }
            "store" => {
                self.eat("atomic");
                self.flags();
                let (t, v) = self.tyval()?;
                self.need(",")?;
                let (_, p) = self.tyval()?;
                let a = self.align_suffix()?;
                Inst::Store(t, v, p, a)
            }
            "getelementptr" => {
                self.flags();
                let t = self.ty()?;
                self.need(",")?;
                let (_, b) = self.tyval()?;
                let mut ix = vec![];
                while self.eat(",") {
                    if self.peek() == b'!' {
                        break;
                    }
                    ix.push(self.tyval()?);
                }
                Inst::Gep(t, b, ix)
            }
            "alloca" => {
                let t = self.ty()?;
                let mut align = t.align();
                let mut n = 1;
                while self.eat(",") {
                    if self.peek() == b'!' {
                        break;
                    }
                    if self.eat("align") {
                        align = self.int()? as u64;
                    } else {
                        let (_, c) = self.tyconst()?;
                        match c {
                            Const::Int(k) => n = k as u64,
                            _ => return self.err("alloca count"),
                        }
                    }
                }
                Inst::Alloca(t.size() * n, align)
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tyval()?;
                self.need(",")?;
                let (t, a) = self.tyval()?;
                self.need(",")?;
                let (_, b) = self.tyval()?;
                Inst::Select(ct, t, c, a, b)
            }
            "phi" => {
                self.flags();
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.need("[")?;
                    let x = self.value(&t)?;
                    self.need(",")?;
                    self.need("%")?;
                    let n = self.name()?;
                    let l = self.label(n);
                    self.need("]")?;
                    v.push((x, l));
                    if self.peek() == b',' {
                        self.i += 1;
                        if self.peek() == b'!' {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                Inst::Phi(t, v)
            }
            "br" => {
                if self.peek_word() == "label" {
                    Inst::Br(self.label_op()?)
                } else {
                    let (_, c) = self.tyval()?;
                    self.need(",")?;
                    let a = self.label_op()?;
                    self.need(",")?;
                    let b = self.label_op()?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.need(",")?;
                let d = self.label_op()?;
                self.need("[")?;
                let mut cases = vec![];
                while self.peek() != b']' {
                    let (_, c) = self.tyconst()?;
                    self.need(",")?;
                    let l = self.label_op()?;
                    match c {
                        Const::Int(n) => cases.push((n, l)),
                        _ => return self.err("switch case"),
                    }
                }
                Inst::Switch(t, v, d, cases)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    Inst::Ret(t, None)
                } else {
                    let v = self.value(&t)?;
                    Inst::Ret(t, Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "call" | "invoke" => {
                loop {
                    let pw = self.peek_word();
                    if matches!(
                        pw.as_str(),
                        "fastcc" | "ccc" | "coldcc" | "preserve_mostcc" | "preserve_allcc" | "fast" | "nsz" | "cold" | "tailcc"
                            | "nnan" | "ninf" | "arcp" | "contract" | "afn" | "reassoc"
                    ) {
                        self.word();
                    } else {
                        break;
                    }
                }
                self.attrs();
                let t = self.ty()?;
                // function type "ret (args)"
                if self.peek() == b'(' {
                    self.skip_parens();
                }
                if self.peek_word() == "asm" {
                    // inline assembly is only used as an optimisation barrier
                    return Ok((dst, Inst::Call(t, Op::Const(Const::Sym("llvm.asm".into())), vec![])));
                }
                let f = self.value(&Ty::Ptr)?;
                self.need("(")?;
                let mut args = vec![];
                if !self.eat(")") {
                    loop {
                        let t = self.ty()?;
                        if t == Ty::Meta {
                            // metadata !x or metadata ptr %x
                            let mut d = 0;
                            while self.i < self.s.len() {
                                match self.s[self.i] {
                                    b'(' => d += 1,
                                    b')' if d == 0 => break,
                                    b')' => d -= 1,
                                    b',' if d == 0 => break,
                                    _ => {}
                                }
                                self.i += 1;
                            }
                        } else {
                            self.attrs();
                            let v = self.value(&t)?;
                            args.push((t, v));
                        }
                        if self.eat(")") {
                            break;
                        }
                        self.need(",")?;
                    }
                }
                Inst::Call(t, f, args)
            }
            "extractvalue" => {
                let (t, a) = self.tyval()?;
                let mut ix = vec![];
                while self.eat(",") {
                    if self.peek() == b'!' {
                        break;
                    }
                    ix.push(self.int()? as usize);
                }
                Inst::ExtractValue(t, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyval()?;
                self.need(",")?;
                let (vt, v) = self.tyval()?;
                let mut ix = vec![];
                while self.eat(",") {
                    if self.peek() == b'!' {
                        break;
                    }
                    ix.push(self.int()? as usize);
                }
                Inst::InsertValue(t, a, vt, v, ix)
            }
            "extractelement" => {
                let (t, a) = self.tyval()?;
                self.need(",")?;
                let (it, i) = self.tyval()?;
                Inst::ExtractElement(t, a, it, i)
            }
            "insertelement" => {
                let (t, a) = self.tyval()?;
                self.need(",")?;
                let (_, v) = self.tyval()?;
                self.need(",")?;
                let (it, i) = self.tyval()?;
                Inst::InsertElement(t, a, v, it, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyval()?;
                self.need(",")?;
                let (_, b) = self.tyval()?;
                self.need(",")?;
                let (mt, m) = self.tyconst()?;
                let n = mt.count();
                let mask = match m {
                    Const::Zero => vec![Some(0); n],
                    Const::Undef => vec![None; n],
                    Const::Agg(v) => v
                        .into_iter()
                        .map(|(_, c)| match c {
                            Const::Int(k) => Some(k as u32),
                            Const::Zero => Some(0),
                            _ => None,
                        })
                        .collect(),
                    _ => return self.err("shuffle mask"),
                };
                Inst::Shuffle(t, a, b, mask)
            }
            "freeze" => {
                let (t, a) = self.tyval()?;
                Inst::Freeze(t, a)
            }
            "atomicrmw" => {
                self.flags();
                let op = self.word();
                let (_, p) = self.tyval()?;
                self.need(",")?;
                let (t, v) = self.tyval()?;
                Inst::AtomicRmw(op, t, p, v)
            }
            "cmpxchg" => {
                self.eat("weak");
                self.flags();
                let (_, p) = self.tyval()?;
                self.need(",")?;
                let (t, c) = self.tyval()?;
                self.need(",")?;
                let (_, n) = self.tyval()?;
                Inst::CmpXchg(t, p, c, n)
            }
            "fence" => Inst::Nop,
            _ => return Err(format!("unknown instruction '{}'", w)),
        };
        Ok((dst, r))
    }
}

fn vec_bitcast(t: &Ty, c: &Const, to: &Ty) -> R<Const> {
    // constant vectors only
    let lanes: Vec<u128> = match c {
        Const::Zero => vec![0; t.count()],
        Const::Undef => return Ok(Const::Undef),
        Const::Agg(v) => v
            .iter()
            .map(|(_, c)| match c {
                Const::Int(k) => Ok(*k),
                Const::Zero | Const::Undef => Ok(0),
                _ => Err("vector bitcast".to_string()),
            })
            .collect::<R<_>>()?,
        _ => return Err("vector bitcast".into()),
    };
    let lb = t.elem(0).bits();
    let mut bytes = vec![];
    for l in lanes {
        for k in 0..lb / 8 {
            bytes.push((l >> (8 * k)) as u8);
        }
    }
    match to {
        Ty::Vector(n, e) => {
            let eb = (e.bits() / 8) as usize;
            let mut v = vec![];
            for i in 0..*n as usize {
                let mut x = 0u128;
                for k in 0..eb {
                    x |= (bytes[i * eb + k] as u128) << (8 * k);
                }
                v.push(((**e).clone(), Const::Int(x)));
            }
            Ok(Const::Agg(v))
        }
        Ty::Int(n) if *n <= 128 => {
            let mut x = 0u128;
            for (k, b) in bytes.iter().enumerate() {
                x |= (*b as u128) << (8 * k);
            }
            Ok(Const::Int(x))
        }
        _ => Err("vector bitcast target".into()),
    }
}

/// cuts trailing metadata and attribute references off
fn clean(line: &str) -> &str {
    let mut l = line;
    if let Some(p) = l.find(", !") {
        // metadata never appears inside strings of instructions we parse
        if !l.contains("metadata") {
            l = &l[..p];
        }
    }
    l
}

/// In a library the bodies of functions that do not return (they panic) are left out.
pub fn parse(text: &str, library: bool) -> R<Module> {
    let mut m = Module::default();
    let mut types: HashMap<String, Ty> = HashMap::new();
    let lines: Vec<&str> = text.lines().collect();
    let mut noreturn_groups: Vec<String> = vec![];
    for l in &lines {
        if l.starts_with("attributes #") {
            let id = l["attributes ".len()..].split(' ').next().unwrap().to_string();
            if l.split(' ').any(|w| w == "noreturn") {
                noreturn_groups.push(id);
            }
        }
    }
    let mut pending: Vec<(String, &str)> = lines
        .iter()
        .filter(|l| l.starts_with('%') && l.contains(" = type ") && !l.ends_with("opaque"))
        .map(|l| l.split_once(" = type ").unwrap())
        .map(|(n, b)| (n[1..].trim_matches('"').to_string(), b))
        .collect();
    while !pending.is_empty() {
        let before = pending.len();
        let mut error = String::new();
        let mut rest = vec![];
        for (n, b) in pending {
            let mut p = P { s: b.as_bytes(), i: 0, types: &types, regs: HashMap::new(), labels: HashMap::new() };
            match p.ty() {
                Ok(t) => {
                    types.insert(n, t);
                }
                Err(e) => {
                    error = e;
                    rest.push((n, b));
                }
            }
        }
        if rest.len() == before {
            return Err(error);
        }
        pending = rest;
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let (n, b) = l.split_once(" = ").ok_or("global")?;
            let name = n[1..].trim_matches('"').to_string();
            let mut p = P { s: b.as_bytes(), i: 0, types: &types, regs: HashMap::new(), labels: HashMap::new() };
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                let w = p.word();
                if p.peek() == b'(' {
                    p.skip_parens();
                }
                match w.as_str() {
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "global" => break,
                    "alias" => {
                        alias = true;
                        break;
                    }
                    "external" | "extern_weak" => external = true,
                    "" => return p.err("global"),
                    _ => {}
                }
            }
            if alias {
                // the aliasee is the last name of the line
                if let Some(at) = b.rfind('@') {
                    let n = b[at + 1..].split(|c: char| c == ' ' || c == ',').next().unwrap_or("");
                    m.aliases.push((name, n.trim_matches('"').to_string()));
                }
            } else {
                let ty = match p.ty() {
                    Ok(t) => t,
                    Err(_) if library => {
                        i += 1;
                        continue;
                    }
                    Err(e) => return Err(format!("{}: {}", name, e)),
                };
                let init = if external {
                    None
                } else {
                    match p.constant(&ty) {
                        Ok(c) => Some(c),
                        Err(_) if library => {
                            i += 1;
                            continue;
                        }
                        Err(e) => return Err(format!("{}: {}", name, e)),
                    }
                };
                m.globals.push(Global { name, ty, init, constant });
            }
        } else if l.starts_with("declare ") {
            if let Some(at) = l.find('@') {
                let mut p = P { s: &l.as_bytes()[at + 1..], i: 0, types: &types, regs: HashMap::new(), labels: HashMap::new() };
                let name = p.name()?;
                if l.split(|c: char| c == ' ' || c == ')').any(|w| w == "noreturn" || noreturn_groups.iter().any(|g| g == w)) {
                    m.noreturn_decls.push(name.clone());
                }
                m.decls.push(name);
            }
        } else if library
            && l.starts_with("define ")
            && l.split(|c: char| c == ' ' || c == ')').any(|w| w == "noreturn" || noreturn_groups.iter().any(|g| g == w))
        {
            let at = l.find('@').ok_or("define")?;
            let mut p = P { s: &l.as_bytes()[at + 1..], i: 0, types: &types, regs: HashMap::new(), labels: HashMap::new() };
            m.noreturn_decls.push(p.name()?);
            while lines[i] != "}" {
                i += 1;
            }
        } else if l.starts_with("define ") {
            let mut p = P { s: &l.as_bytes()[7..], i: 0, types: &types, regs: HashMap::new(), labels: HashMap::new() };
            // linkage etc.
            loop {
                let st = p.i;
                if let Ok(t) = p.ty() {
                    if p.peek() == b'@' {
                        p.i += 1;
                        let name = p.name()?;
                        p.need("(")?;
                        let mut params = vec![];
                        let mut names = vec![];
                        if !p.eat(")") {
                            loop {
                                if p.eat("...") {
                                    p.need(")")?;
                                    break;
                                }
                                let pt = p.ty()?;
                                p.attrs();
                                if p.peek() == b'%' {
                                    p.i += 1;
                                    let n = p.name()?;
                                    names.push(n);
                                } else {
                                    names.push(format!("{}", names.len()));
                                }
                                params.push(pt);
                                if p.eat(")") {
                                    break;
                                }
                                p.need(",")?;
                            }
                        }
                        let mut regs = HashMap::new();
                        for (k, n) in names.iter().enumerate() {
                            regs.insert(n.clone(), k as u32);
                        }
                        // body
                        let mut labels: HashMap<String, u32> = HashMap::new();
                        let mut order: Vec<(u32, Vec<(u32, Inst)>)> = vec![];
                        i += 1;
                        // the entry block may have no label line
                        let mut first = true;
                        while lines[i] != "}" {
                            let line = lines[i];
                            let tr = line.trim_start();
                            if tr.is_empty() || tr.starts_with(';') || tr.starts_with('#') {
                                i += 1;
                                continue;
                            }
                            if !line.starts_with(' ') {
                                // label
                                let lab = if line.starts_with('"') {
                                    line[1..].split('"').next().unwrap().to_string()
                                } else {
                                    line.split(':').next().unwrap().to_string()
                                };
                                let k = labels.len() as u32;
                                let id = *labels.entry(lab).or_insert(k);
                                order.push((id, vec![]));
                                first = false;
                                i += 1;
                                continue;
                            }
                            if first {
                                let k = labels.len() as u32;
                                let id = *labels.entry(format!("{}", params.len())).or_insert(k);
                                order.push((id, vec![]));
                                first = false;
                            }
                            let mut joined;
                            let mut src: &str = tr;
                            if tr.starts_with("switch ") && !tr.contains(']') {
                                joined = tr.to_string();
                                loop {
                                    i += 1;
                                    joined.push(' ');
                                    joined.push_str(lines[i].trim());
                                    if lines[i].trim_start().starts_with(']') {
                                        break;
                                    }
                                }
                                src = &joined;
                            } else if (tr.contains(" invoke ") || tr.starts_with("invoke ")) && i + 1 < lines.len() {
                                joined = tr.to_string();
                                i += 1;
                                joined.push(' ');
                                joined.push_str(lines[i].trim());
                                return Err(format!("invoke not supported: {}", joined));
                            }
                            let src = clean(src);
                            let mut q = P { s: src.as_bytes(), i: 0, types: &types, regs, labels };
                            let r = match q.inst() {
                                Ok(r) => r,
                                Err(e) => (NOREG, Inst::Bad(format!("{} in {}", e, src))),
                            };
                            regs = q.regs;
                            labels = q.labels;
                            order.last_mut().unwrap().1.push(r);
                            i += 1;
                        }
                        let mut blocks: Vec<Vec<(u32, Inst)>> = (0..labels.len()).map(|_| vec![]).collect();
                        let entry = order[0].0;
                        for (id, b) in order {
                            blocks[id as usize] = b;
                        }
                        assert!(entry == 0 || !blocks[entry as usize].is_empty());
                        // make the entry block number 0
                        if entry != 0 {
                            return Err(format!("entry block of {} is not the first", name));
                        }
                        m.funcs.push(Func { name, params, nregs: regs.len() as u32, blocks, ret: t });
                        break;
                    }
                    // a type that is not followed by the name is impossible
                    return p.err("define");
                }
                p.i = st;
                let w = p.word();
                if w.is_empty() {
                    return p.err("define");
                }
                if p.i < p.s.len() && p.s[p.i] == b'(' {
                    p.skip_parens();
                } else if w == "align" {
                    p.word();
                }
            }
        }
        i += 1;
    }
    Ok(m)
}
