//! Links parsed modules into a program: resolves symbols, lays out globals, prepares operands.

use crate::exec::{Obj, V};
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const FN_BASE: u64 = 1 << 62;
pub const OBJ_SHIFT: u32 = 36;

pub fn obj_base(id: usize, align: u64) -> u64 {
    ((id as u64 + 1) << OBJ_SHIFT) + (1 << 20) + align.min(4096)
}

#[derive(Clone, Debug)]
pub enum Target {
    Func(usize),
    Builtin(Builtin),
    NoReturn,
    Unknown,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Builtin {
    Nop,
    /// a constant i32/i64/pointer result of zero
    Zero,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    GrowOneU8,
    MemCpy,
    MemCmp,
    BCmp,
    MemSet,
    Detect,
    Trap,
    Overflow(char, bool, u32),
    MinMax(String, u32),
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    FShift(bool, u32),
    Sat(char, bool, u32),
    PmaddWd,
    PsignW,
    PackSsDw,
    PackUsWb,
    PackSsWb,
    Pmulh(bool),
    Cmp3(bool),
    /// floating point
    F(String),
    /// vector operations of the processor without an instruction of their own
    X86(String),
    SymU,
    SymI,
    SymBytes,
    Choose,
    Concretize,
    Assume,
    Check,
    CheckLinear,
    Reach,
    Param,
    Avx2,
    ExpectPanic,
    /// all variables of the program get the values they start with
    Forget,
    Out,
    Slice,
    Window,
    IsSymbolic,
}

pub struct Sym {
    pub name: String,
    pub target: Target,
}

pub struct CFunc {
    pub name: String,
    pub nparams: usize,
    pub nregs: u32,
    pub blocks: Vec<Vec<(u32, Inst)>>,
    pub ns: usize,
}

pub struct Prog {
    pub funcs: Vec<CFunc>,
    pub syms: Vec<Sym>,
    pub consts: Vec<V>,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub exports: HashMap<(usize, String), usize>,
}

/// floating-point operations by the names of instructions, intrinsics and functions of the C library
fn float(n: &str) -> Option<String> {
    if let Some(r) = n.strip_prefix("verif.f.") {
        return Some(r.to_string());
    }
    const INTRINSICS: &[&str] = &[
        "round", "roundeven", "rint", "nearbyint", "floor", "ceil", "trunc", "sqrt", "fma", "fmuladd", "fabs", "copysign",
        "minnum", "maxnum", "minimum", "maximum", "minimumnum", "maximumnum", "pow", "powi", "exp", "exp2", "log", "log2",
        "log10", "sin", "cos", "tan", "fptosi", "fptoui",
    ];
    if let Some(r) = n.strip_prefix("llvm.") {
        let w = r.split('.').next()?;
        let r = r.strip_prefix("experimental.constrained.").map_or(w, |_| "");
        return if INTRINSICS.contains(&r) { Some(w.to_string()) } else { None };
    }
    const FUNCTIONS: &[&str] = &[
        "round", "rint", "floor", "ceil", "trunc", "sqrt", "fma", "fabs", "pow", "exp", "exp2", "log", "log2", "log10", "sin",
        "cos", "tan", "fmod", "cbrt",
    ];
    let w = n.strip_suffix('f').filter(|w| FUNCTIONS.contains(w)).unwrap_or(n);
    match w {
        "fmod" => Some("frem".into()),
        _ if FUNCTIONS.contains(&w) => Some(w.to_string()),
        _ => None,
    }
}

fn builtin(n: &str) -> Option<Builtin> {
    use Builtin::*;
    if let Some(f) = float(n) {
        return Some(F(f));
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let last_bits = |r: &str| -> u32 {
            r.rsplit('.').next().and_then(|x| x.strip_prefix('i')).and_then(|x| x.parse().ok()).unwrap_or(0)
        };
        let b = if r.starts_with("lifetime")
            || r == "assume"
            || r.starts_with("experimental.noalias")
            || r == "asm"
            || r.starts_with("invariant")
            || r.starts_with("dbg")
            || r.starts_with("prefetch")
            || r == "x86.avx.vzeroupper"
            || r == "donothing"
            // there is one thread
            || r.starts_with("threadlocal.address")
            || r == "sideeffect"
        {
            Nop
        } else if r.starts_with("memcpy") || r.starts_with("memmove") {
            MemCpy
        } else if r.starts_with("memset") {
            MemSet
        } else if r == "trap" || r == "ubsantrap" || r == "debugtrap" {
            Trap
        } else if r.contains(".with.overflow.") {
            let c = match &r[1..4] {
                "add" => '+',
                "sub" => '-',
                "mul" => '*',
                _ => return None,
            };
            Overflow(c, r.starts_with('s'), last_bits(r))
        } else if r.starts_with("umin.") || r.starts_with("umax.") || r.starts_with("smin.") || r.starts_with("smax.") {
            MinMax(r[..4].to_string(), 0)
        } else if r.starts_with("abs.") {
            Abs
        } else if r.starts_with("ctlz.") {
            Ctlz
        } else if r.starts_with("cttz.") {
            Cttz
        } else if r.starts_with("ctpop.") {
            Ctpop
        } else if r.starts_with("bswap.") {
            Bswap
        } else if r.starts_with("fshl.") || r.starts_with("fshr.") {
            FShift(r.starts_with("fshl"), last_bits(r))
        } else if r.starts_with("uadd.sat") || r.starts_with("sadd.sat") {
            Sat('+', r.starts_with('s'), last_bits(r))
        } else if r.starts_with("usub.sat") || r.starts_with("ssub.sat") {
            Sat('-', r.starts_with('s'), last_bits(r))
        } else if r.starts_with("scmp.") || r.starts_with("ucmp.") {
            Cmp3(r.starts_with('s'))
        } else if r.starts_with("x86.") {
            match r {
                "x86.avx2.pmadd.wd" | "x86.sse2.pmadd.wd" => PmaddWd,
                "x86.avx2.psign.w" | "x86.ssse3.psign.w.128" => PsignW,
                "x86.avx2.packssdw" | "x86.sse2.packssdw.128" => PackSsDw,
                "x86.avx2.packuswb" | "x86.sse2.packuswb.128" => PackUsWb,
                "x86.avx2.packsswb" | "x86.sse2.packsswb.128" => PackSsWb,
                "x86.avx2.pmulh.w" | "x86.sse2.pmulh.w" => Pmulh(true),
                "x86.avx2.pmulhu.w" | "x86.sse2.pmulhu.w" => Pmulh(false),
                _ => {
                    const MORE: &[&str] = &[
                        "psign", "packusdw", "pmadd.ub.sw", "pmul.hr.sw", "psll", "psrl", "psra", "pshuf.b", "permd", "psad.bw",
                        "gather.d.d", "cvt.ps2dq", "cvtt.ps2dq", "cvtps2dq", "cvttps2dq", "round.ps", "max.ps", "min.ps",
                    ];
                    let k = r[4..].split_once('.')?.1;
                    let m = MORE.iter().find(|m| k.strip_prefix(**m).is_some_and(|x| x.is_empty() || x.starts_with('.')))?;
                    X86(m.to_string())
                }
            }
        } else if r.starts_with("masked.load.") {
            X86("masked.load".into())
        } else if r.starts_with("masked.store.") {
            X86("masked.store".into())
        } else {
            return None;
        };
        return Some(b);
    }
    Some(match n {
        "memcpy" | "memmove" => MemCpy,
        "memset" => MemSet,
        "memcmp" => MemCmp,
        "bcmp" => BCmp,
        "verif_sym_u" => SymU,
        "verif_sym_i" => SymI,
        "verif_bytes" => SymBytes,
        "verif_choose" => Choose,
        "verif_concretize" => Concretize,
        "verif_assume" => Assume,
        "verif_check" => Check,
        "verif_check_linear" => CheckLinear,
        "verif_reach" => Reach,
        "verif_param" => Param,
        "verif_avx2" => Avx2,
        "verif_expect_panic" => ExpectPanic,
        "verif_forget" => Forget,
        "verif_out" => Out,
        "verif_slice" => Slice,
        "verif_window" => Window,
        "verif_is_symbolic" => IsSymbolic,
        _ => {
            if n.contains("7___rustc") {
                if n.ends_with("12___rust_alloc") {
                    return Some(Alloc);
                }
                if n.ends_with("19___rust_alloc_zeroed") {
                    return Some(AllocZeroed);
                }
                if n.ends_with("14___rust_dealloc") {
                    return Some(Dealloc);
                }
                if n.ends_with("14___rust_realloc") {
                    return Some(Realloc);
                }
                if n.contains("___rust_no_alloc_shim") {
                    return Some(Nop);
                }
            }
            // there is no end of the thread
            if n.contains("12thread_local11destructors") && n.ends_with("8register") {
                return Some(Nop);
            }
            if n.ends_with("detect_and_initialize") {
                return Some(Detect);
            }
            // RawVec<u8>::grow_one is not instantiated in the crate itself
            if n.contains("7raw_vec") && n.contains("RawVechE8grow_one") {
                return Some(GrowOneU8);
            }
            return None;
        }
    })
}

struct Linker {
    consts: Vec<V>,
    intern: HashMap<u64, u32>,
    syms: Vec<Sym>,
    /// address of a name per module, then per namespace
    local: Vec<HashMap<String, u64>>,
    global: Vec<HashMap<String, u64>>,
    objs: Vec<Option<Rc<Obj>>>,
}

impl Linker {
    fn ext(&mut self, name: &str, noreturn: bool) -> u64 {
        let t = if let Some(b) = builtin(name) {
            Target::Builtin(b)
        } else if noreturn {
            Target::NoReturn
        } else {
            Target::Unknown
        };
        self.syms.push(Sym { name: name.to_string(), target: t });
        FN_BASE | ((self.syms.len() as u64 - 1) << 4)
    }
    fn addr(&mut self, m: usize, ns: usize, name: &str) -> u64 {
        if let Some(&a) = self.local[m].get(name) {
            return a;
        }
        if let Some(&a) = self.global[ns].get(name) {
            return a;
        }
        // what the harnesses provide in place of functions of the standard library
        if name.contains("4once5futex") && name.ends_with("4Once4call") {
            if let Some(&a) = self.global[ns].get("verif_once_call") {
                return a;
            }
        }
        let a = self.ext(name, false);
        self.global[ns].insert(name.to_string(), a);
        a
    }
    fn value(&mut self, m: usize, ns: usize, c: &Const, t: &Ty) -> V {
        match c {
            Const::Int(v) => {
                if t.bits() > 64 {
                    let n = (t.bits() + 63) / 64;
                    V::A(Rc::new((0..n).map(|i| V::I(if i < 2 { (v >> (64 * i)) as u64 } else { 0 })).collect()))
                } else {
                    V::I(*v as u64)
                }
            }
            Const::Undef => match t {
                Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                    V::A(Rc::new((0..t.count()).map(|i| self.value(m, ns, c, &t.elem(i))).collect()))
                }
                Ty::Int(n) if *n > 64 => V::A(Rc::new(vec![V::U; ((*n + 63) / 64) as usize])),
                _ => V::U,
            },
            Const::Zero => match t {
                Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                    V::A(Rc::new((0..t.count()).map(|i| self.value(m, ns, c, &t.elem(i))).collect()))
                }
                Ty::Int(n) if *n > 64 => V::A(Rc::new(vec![V::I(0); ((*n + 63) / 64) as usize])),
                _ => V::I(0),
            },
            Const::Sym(s) => V::I(self.addr(m, ns, s)),
            Const::Offset(b, o) => match self.value(m, ns, b, t) {
                V::I(a) => V::I(a.wrapping_add(*o as u64)),
                v => v,
            },
            Const::Bin(o, a, b) => match (self.value(m, ns, a, t), self.value(m, ns, b, t)) {
                (V::I(x), V::I(y)) => {
                    let r = match o {
                        '+' => x.wrapping_add(y),
                        '-' => x.wrapping_sub(y),
                        '^' => x ^ y,
                        '&' => x & y,
                        _ => x | y,
                    };
                    let w = t.bits();
                    V::I(if w < 64 && matches!(t, Ty::Int(_)) { r & ((1 << w) - 1) } else { r })
                }
                _ => V::U,
            },
            Const::Trunc(c, w) => match self.value(m, ns, c, &Ty::Int(64)) {
                V::I(x) => V::I(x & ((1u64 << w) - 1)),
                v => v,
            },
            Const::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::I(*x as u64)).collect())),
            Const::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.value(m, ns, c, t)).collect())),
        }
    }
    fn bytes(&mut self, m: usize, ns: usize, c: &Const, t: &Ty, out: &mut [u8]) {
        match c {
            Const::Zero | Const::Undef => {}
            Const::Bytes(b) => out[..b.len()].copy_from_slice(b),
            Const::Agg(v) => {
                for (i, (et, ec)) in v.iter().enumerate() {
                    let o = t.field_off(i) as usize;
                    let n = et.store_size() as usize;
                    self.bytes(m, ns, ec, et, &mut out[o..o + n]);
                }
            }
            Const::Int(v) => {
                let n = t.store_size() as usize;
                for i in 0..n.min(16) {
                    out[i] = (v >> (8 * i)) as u8;
                }
            }
            Const::Sym(_) | Const::Offset(..) | Const::Bin(..) | Const::Trunc(..) => {
                if let V::I(a) = self.value(m, ns, c, t) {
                    let n = t.store_size() as usize;
                    out[..n].copy_from_slice(&a.to_le_bytes()[..n]);
                }
            }
        }
    }
    fn pool(&mut self, v: V) -> u32 {
        if let V::I(x) = v {
            if let Some(&k) = self.intern.get(&x) {
                return k;
            }
            self.intern.insert(x, self.consts.len() as u32);
        }
        self.consts.push(v);
        self.consts.len() as u32 - 1
    }
}

/// modules with the number of their namespace
pub fn link(mods: Vec<(usize, Module)>) -> Prog {
    let nns = mods.iter().map(|m| m.0).max().unwrap_or(0) + 1;
    let mut l = Linker {
        consts: vec![],
        intern: HashMap::new(),
        syms: vec![],
        local: vec![HashMap::new(); mods.len()],
        global: vec![HashMap::new(); nns],
        objs: vec![],
    };
    // functions first: a function symbol per definition
    let mut funcs = vec![];
    let mut exports = HashMap::new();
    let mut places = vec![];
    for (mi, (ns, m)) in mods.iter().enumerate() {
        for f in &m.funcs {
            let idx = places.len();
            places.push(());
            // some library functions are replaced even if the crate contains a copy of them
            let t = match builtin(&f.name) {
                Some(b) if b != Builtin::GrowOneU8 => Target::Builtin(b),
                _ => Target::Func(idx),
            };
            l.syms.push(Sym { name: f.name.clone(), target: t });
            let a = FN_BASE | ((l.syms.len() as u64 - 1) << 4);
            l.local[mi].insert(f.name.clone(), a);
            l.global[*ns].entry(f.name.clone()).or_insert(a);
            exports.entry((*ns, f.name.clone())).or_insert(idx);
        }
        for g in &m.globals {
            let id = l.objs.len();
            l.objs.push(None);
            let size = g.ty.size().max(1);
            let a = obj_base(id, 4096);
            if g.init.is_some() {
                l.local[mi].insert(g.name.clone(), a);
                l.global[*ns].entry(g.name.clone()).or_insert(a);
            }
            l.objs[id] = Some(Rc::new(Obj::global(&g.name, a, size, g.constant)));
        }
    }
    for (mi, (ns, m)) in mods.iter().enumerate() {
        for (n, t) in &m.aliases {
            if let Some(&a) = l.local[mi].get(t) {
                l.local[mi].insert(n.clone(), a);
                l.global[*ns].entry(n.clone()).or_insert(a);
            }
        }
    }
    // external data and functions
    let mut gi = 0;
    for (ns, m) in &mods {
        for g in &m.globals {
            if g.init.is_none() && !l.global[*ns].contains_key(&g.name) {
                let a = l.objs[gi].as_ref().unwrap().base;
                l.global[*ns].insert(g.name.clone(), a);
            }
            gi += 1;
        }
        for d in &m.noreturn_decls {
            if !l.global[*ns].contains_key(d) {
                let a = l.ext(d, true);
                l.global[*ns].insert(d.clone(), a);
            }
        }
    }
    // contents of globals
    let mut gi = 0;
    for (mi, (ns, m)) in mods.iter().enumerate() {
        for g in &m.globals {
            let mut b = vec![0u8; g.ty.size().max(1) as usize];
            if let Some(c) = &g.init {
                let n = g.ty.store_size() as usize;
                l.bytes(mi, *ns, c, &g.ty, &mut b[..n]);
            }
            let o = Rc::get_mut(l.objs[gi].as_mut().unwrap()).unwrap();
            o.data = b;
            gi += 1;
        }
    }
    for (mi, (ns, m)) in mods.into_iter().enumerate() {
        for f in m.funcs {
            let mut blocks = f.blocks;
            for b in &mut blocks {
                for (_, inst) in b.iter_mut() {
                    if let Inst::Gep(t, base, ix) = inst {
                        if let Some(n) = gep(t, base, ix) {
                            *inst = n;
                        }
                    }
                    for (op, t) in inst.ops() {
                        if let Op::Const(c) = op {
                            let v = l.value(mi, ns, c, &t);
                            *op = Op::Val(l.pool(v));
                        }
                    }
                }
            }
            funcs.push(CFunc { name: f.name, nparams: f.params.len(), nregs: f.nregs, blocks, ns });
        }
    }
    Prog { funcs, syms: l.syms, consts: l.consts, objs: l.objs, exports }
}

fn gep(t: &Ty, base: &Op, ix: &[(Ty, Op)]) -> Option<Inst> {
    let mut off = 0u64;
    let mut cur = t.clone();
    let mut r = vec![];
    for (k, (it, i)) in ix.iter().enumerate() {
        let scale;
        if k == 0 {
            scale = cur.size();
        } else if let Ty::Struct(..) = cur {
            let n = match i {
                Op::Const(Const::Int(n)) => *n as usize,
                Op::Const(Const::Zero) => 0,
                _ => return None,
            };
            off = off.wrapping_add(cur.field_off(n));
            cur = cur.elem(n);
            continue;
        } else {
            let e = cur.elem(0);
            scale = e.size();
            cur = e;
        }
        match i {
            Op::Const(Const::Int(n)) => {
                let w = it.bits() as u8;
                off = off.wrapping_add((crate::expr::sext64(*n as u64, w) as u64).wrapping_mul(scale))
            }
            Op::Const(Const::Zero) => {}
            _ => r.push((i.clone(), it.bits() as u32, scale)),
        }
    }
    Some(Inst::GepC(base.clone(), off, r))
}
