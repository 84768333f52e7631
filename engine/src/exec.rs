//! Symbolic execution of the linked program: depth-first over all feasible paths.

use crate::expr::*;
use crate::ir::*;
use crate::load::*;
use crate::smt::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    E(Id),
    /// elements of a vector or aggregate, or 64-bit limbs of a wide integer
    A(Rc<Vec<V>>),
    U,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
    Virtual,
    /// only the bytes from this offset on are kept, those before and after read as zeros
    Window(u64),
}

const NOCELL: u64 = u64::MAX;
/// number of zeros before the bytes that are kept of a window, the largest access outside of them
const ZEROS: u64 = 4096;

#[derive(Clone, Debug)]
pub struct Obj {
    pub name: String,
    pub base: u64,
    pub size: u64,
    pub align: u64,
    pub kind: Kind,
    pub alive: bool,
    pub data: Vec<u8>,
    /// expression << 3 | byte, parallel to data, empty if all bytes are concrete
    pub cells: Vec<u64>,
    /// 1 for initialised bytes, empty if all are
    pub init: Vec<u8>,
}

impl Obj {
    pub fn global(name: &str, base: u64, size: u64, constant: bool) -> Obj {
        Obj {
            name: name.to_string(),
            base,
            size,
            align: 4096,
            kind: if constant { Kind::Const } else { Kind::Global },
            alive: true,
            data: vec![],
            cells: vec![],
            init: vec![],
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: usize,
    pub regs: Vec<V>,
    pub block: u32,
    pub ip: u32,
    pub prev: u32,
    pub dst: u32,
    pub allocas: Vec<u32>,
}

pub struct Model {
    vals: HashMap<u32, u64>,
    memo: RefCell<HashMap<Id, u64>>,
}

#[derive(Clone)]
pub enum InRec {
    Var(u32),
    /// variable with fixed high bits
    Pre(u32, u64),
    Val(u64),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    path: Vec<Id>,
    known: Rc<HashSet<Id>>,
    model: Rc<Model>,
    inputs: Vec<InRec>,
    nuninit: u32,
    forced: Option<(Id, u64)>,
    choice: Option<u64>,
    expect_panic: bool,
    avx2: bool,
    insts: u64,
    out: Vec<V>,
}

#[derive(Debug)]
pub enum Stop {
    /// the path ended normally
    End,
    /// an assumption does not hold
    Pruned,
    /// a reported violation ended the path
    Violation,
    /// the engine cannot continue
    Unsupported(String),
}

type X<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u64,
    pub message: String,
    pub place: String,
    pub inputs: Vec<u64>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub pruned: u64,
    pub insts: u64,
    pub forks: u64,
    pub branches: u64,
    pub branches_simplified: u64,
    pub checks: u64,
    pub checks_simplified: u64,
    pub checks_solver: u64,
    pub checks_linear: u64,
    pub reached: BTreeMap<u64, u64>,
    pub violations: Vec<Violation>,
    pub unsupported: BTreeMap<String, u64>,
    pub expected_panics: u64,
    pub max_inputs: usize,
    pub memory_checks: u64,
    pub functions: BTreeSet<String>,
    pub seconds: f64,
    /// inputs and output of some paths
    pub samples: Vec<(Vec<u64>, Vec<u8>)>,
    pub fork_places: BTreeMap<String, u64>,
    /// inputs of the path that was not finished at the time limit
    pub interrupted: Option<Vec<u64>>,
}

pub struct Limits {
    pub seconds: f64,
    pub paths: u64,
    pub values: usize,
    pub violations: usize,
}

pub struct Exec<'a> {
    pub prog: &'a Prog,
    pub ctx: Ctx,
    pub solver: Solver,
    pub params: Vec<u64>,
    pub report: Report,
    pub limits: Limits,
    pub concrete: Option<Vec<u64>>,
    work: Vec<State>,
    seen: Vec<bool>,
    start: Instant,
    deadline: bool,
    trace: bool,
}

fn unsupported<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Unsupported(s.into()))
}

impl<'a> Exec<'a> {
    pub fn new(prog: &'a Prog, solver: Solver, limits: Limits) -> Exec<'a> {
        Exec {
            prog,
            ctx: Ctx::new(),
            solver,
            params: vec![],
            report: Report::default(),
            limits,
            concrete: None,
            work: vec![],
            seen: vec![false; prog.funcs.len()],
            start: Instant::now(),
            deadline: false,
            trace: std::env::var("SYMEX_TRACE").is_ok(),
        }
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let f = *self.prog.exports.get(&(0, entry.to_string())).ok_or(format!("no function {}", entry))?;
        self.start = Instant::now();
        let st = State {
            frames: vec![self.frame(f, NOREG)],
            mem: self.prog.objs.clone(),
            free: vec![],
            path: vec![],
            known: Rc::new(HashSet::new()),
            model: Rc::new(Model { vals: HashMap::new(), memo: RefCell::new(HashMap::new()) }),
            inputs: vec![],
            nuninit: 0,
            forced: None,
            choice: None,
            expect_panic: false,
            avx2: false,
            insts: 0,
            out: vec![],
        };
        self.solver.end = Some(self.start + std::time::Duration::from_secs_f64(self.limits.seconds));
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.report.paths >= self.limits.paths {
                *self.report.unsupported.entry("path limit reached".into()).or_insert(0) += 1;
                break;
            }
            let r = loop {
                if self.start.elapsed().as_secs_f64() > self.limits.seconds {
                    self.deadline = true;
                    break Stop::Unsupported("time limit reached".into());
                }
                match self.burst(&mut st) {
                    Ok(()) => {}
                    Err(s) => break s,
                }
            };
            self.report.insts += st.insts;
            self.report.max_inputs = self.report.max_inputs.max(st.inputs.len());
            match r {
                Stop::End => {
                    self.report.paths += 1;
                    if self.report.samples.len() < 2 || self.report.paths.is_power_of_two() {
                        if self.report.samples.len() > 7 {
                            self.report.samples.remove(1);
                        }
                        let m = st.model.clone();
                        let inputs = self.inputs_of(&st, &m);
                        let mut out = vec![];
                        for v in std::mem::take(&mut st.out) {
                            out.push(match v {
                                V::I(x) => x as u8,
                                V::E(e) => self.eval(&st, e) as u8,
                                _ => 0,
                            });
                        }
                        self.report.samples.push((inputs, out));
                    }
                }
                Stop::Pruned => {
                    self.report.pruned += 1;
                }
                Stop::Violation => {
                    self.report.paths += 1;
                }
                Stop::Unsupported(s) => {
                    self.report.paths += 1;
                    if self.deadline {
                        let m = st.model.clone();
                        self.report.interrupted = Some(self.inputs_of(&st, &m));
                    }
                    let place = self.place(&st);
                    *self.report.unsupported.entry(format!("{} in {}", s, place)).or_insert(0) += 1;
                }
            }
            if self.deadline || self.report.violations.len() >= self.limits.violations {
                break;
            }
        }
        self.report.seconds = self.start.elapsed().as_secs_f64();
        for (i, s) in self.seen.iter().enumerate() {
            if *s {
                self.report.functions.insert(self.prog.funcs[i].name.clone());
            }
        }
        Ok(())
    }

    fn frame(&mut self, f: usize, dst: u32) -> Frame {
        self.seen[f] = true;
        Frame { func: f, regs: vec![V::U; self.prog.funcs[f].nregs as usize], block: 0, ip: 0, prev: 0, dst, allocas: vec![] }
    }

    fn place(&self, st: &State) -> String {
        let mut s: Vec<String> = vec![];
        for f in st.frames.iter().rev().take(4) {
            s.push(self.prog.funcs[f.func].name.clone());
        }
        s.join(" < ")
    }

    // ---- values ----

    fn get(&self, st: &State, o: &Op) -> V {
        match o {
            Op::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::Val(k) => self.prog.consts[*k as usize].clone(),
            Op::Const(_) => unreachable!(),
        }
    }

    fn fresh_uninit(&mut self, st: &mut State, w: u8) -> Id {
        st.nuninit += 1;
        self.ctx.var(VarInfo { ord: st.nuninit, w, signed: false, lo: 0, hi: mask(w), uninit: true })
    }

    fn ex(&mut self, st: &mut State, v: &V, w: u32) -> X<Id> {
        Ok(match v {
            V::I(x) => self.ctx.c(*x, w as u8),
            V::E(e) => *e,
            V::U => self.fresh_uninit(st, w as u8),
            V::A(_) => return unsupported("aggregate used as scalar"),
        })
    }

    fn val(&self, e: Id) -> V {
        match self.ctx.cv(e) {
            Some(v) => V::I(v),
            None => V::E(e),
        }
    }

    fn eval(&self, st: &State, e: Id) -> u64 {
        let m = &st.model;
        let vars = &self.ctx.vars;
        let f = |v: u32| match m.vals.get(&v) {
            Some(x) => *x,
            None => vars[v as usize].lo & mask(vars[v as usize].w),
        };
        self.ctx.eval(e, &f, &mut m.memo.borrow_mut())
    }

    // ---- constraints ----

    fn slice(&mut self, st: &State, cs: &[Id]) -> Vec<Id> {
        let mut marked: HashSet<u32> = HashSet::new();
        for &c in cs {
            marked.extend(self.ctx.varset(c).iter());
        }
        let mut out: Vec<Id> = cs.to_vec();
        let sets: Vec<Rc<Vec<u32>>> = st.path.iter().map(|&p| self.ctx.varset(p)).collect();
        let mut used = vec![false; sets.len()];
        loop {
            let mut again = false;
            for i in 0..sets.len() {
                if !used[i] && sets[i].iter().any(|v| marked.contains(v)) {
                    used[i] = true;
                    out.push(st.path[i]);
                    for v in sets[i].iter() {
                        if marked.insert(*v) {
                            again = true;
                        }
                    }
                }
            }
            if !again {
                return out;
            }
        }
    }

    fn add(&mut self, st: &mut State, c: Id) {
        match self.ctx.n(c).k.clone() {
            K::Const(_) => {}
            K::And(a, b) => {
                self.add(st, a);
                self.add(st, b);
            }
            _ => {
                if !st.known.contains(&c) {
                    Rc::make_mut(&mut st.known).insert(c);
                    // a tighter limit of the same kind replaces one that it implies
                    if let Some((v, upper, l)) = self.limit(c) {
                        let mut i = 0;
                        while i < st.path.len() {
                            match self.limit(st.path[i]) {
                                Some((v2, u2, l2)) if v2 == v && u2 == upper && (l == l2 || (l < l2) == upper) => {
                                    st.path.remove(i);
                                }
                                _ => i += 1,
                            }
                        }
                    }
                    st.path.push(c);
                }
            }
        }
    }

    /// (value, is an upper limit, greatest or least allowed value)
    fn limit(&self, c: Id) -> Option<(Id, bool, u64)> {
        let (k, pos) = match &self.ctx.n(c).k {
            K::Not(x) => (&self.ctx.n(*x).k, false),
            k => (k, true),
        };
        if let K::Ult(a, b) = k {
            match (self.ctx.cv(*a), self.ctx.cv(*b)) {
                // a < const
                (None, Some(v)) => return Some(if pos { (*a, true, v.wrapping_sub(1)) } else { (*a, false, v) }),
                // const < b
                (Some(v), None) => return Some(if pos { (*b, false, v.wrapping_add(1)) } else { (*b, true, v) }),
                _ => {}
            }
        }
        None
    }

    fn overlay(&self, st: &State, m: &HashMap<u32, u64>) -> Rc<Model> {
        let mut vals = st.model.vals.clone();
        for (k, v) in m {
            vals.insert(*k, *v);
        }
        Rc::new(Model { vals, memo: RefCell::new(HashMap::new()) })
    }

    fn known(&mut self, st: &State, c: Id) -> Option<bool> {
        if let Some(v) = self.ctx.cv(c) {
            return Some(v != 0);
        }
        if st.known.contains(&c) {
            return Some(true);
        }
        let n = self.ctx.not(c);
        if st.known.contains(&n) {
            return Some(false);
        }
        None
    }

    /// Some(model) if the condition can hold on this path, None if it cannot
    fn feasible(&mut self, st: &State, c: Id) -> X<Option<Rc<Model>>> {
        match self.known(st, c) {
            Some(false) => return Ok(None),
            Some(true) => return Ok(Some(st.model.clone())),
            None => {}
        }
        if self.eval(st, c) == 1 {
            self.solver.stats.model_hits += 1;
            return Ok(Some(st.model.clone()));
        }
        let s = self.slice(st, &[c]);
        match self.solver.check(&mut self.ctx, &s) {
            Res::Sat(m) => Ok(Some(self.overlay(st, &m))),
            Res::Unsat => Ok(None),
            Res::Unknown => unsupported("solver gave no answer"),
        }
    }

    /// whether the value of an expression depends on what uninitialised memory holds
    fn uses_uninit(&mut self, st: &State, c: Id) -> X<bool> {
        let vs = self.ctx.varset(c);
        if !vs.iter().any(|&v| self.ctx.vars[v as usize].uninit) {
            return Ok(false);
        }
        if let Some(_) = self.known(st, c) {
            return Ok(false);
        }
        let d = self.ctx.refresh(c);
        let e = self.ctx.eq(c, d);
        let n = self.ctx.not(e);
        if let Some(v) = self.ctx.cv(n) {
            return Ok(v != 0);
        }
        let s = self.slice(st, &[n]);
        match self.solver.check(&mut self.ctx, &s) {
            Res::Sat(_) => Ok(true),
            Res::Unsat => Ok(false),
            Res::Unknown => unsupported("solver gave no answer"),
        }
    }

    fn choose_path<T: Clone>(&mut self, st: &mut State, alts: Vec<(Id, T)>, resume: impl Fn(&mut State, &T)) -> X<T> {
        // exactly one condition holds
        let mut taken = None;
        self.report.branches += 1;
        for (c, t) in &alts {
            if let Some(true) = self.known(st, *c) {
                self.report.branches_simplified += 1;
                return Ok(t.clone());
            }
        }
        for (c, _) in &alts {
            if self.uses_uninit(st, *c)? {
                if self.trace {
                    eprintln!("uninit: {}", self.ctx.show(*c, 12));
                }
                self.violation(st, "uninit", 0, "a decision depends on uninitialised memory", None);
                return Err(Stop::Violation);
            }
        }
        let mut others = vec![];
        let mut single = true;
        for (c, t) in alts {
            if self.eval(st, c) == 1 && taken.is_none() {
                taken = Some((c, t));
            } else {
                match self.known(st, c) {
                    Some(false) => {}
                    _ => {
                        match self.feasible(st, c) {
                            Ok(Some(m)) => others.push((c, t, m)),
                            Ok(None) => {}
                            Err(Stop::Unsupported(s)) => {
                                // go on with what is known, but the result stays inconclusive
                                let place = self.place(st);
                                *self.report.unsupported.entry(format!("{} in {}", s, place)).or_insert(0) += 1;
                            }
                            Err(e) => return Err(e),
                        }
                    }
                }
            }
        }
        let (c, t) = match taken {
            Some(x) => x,
            None => return unsupported("no alternative holds in the current model"),
        };
        if !others.is_empty() && self.trace {
            let p = format!("{} | {}", self.place(st), self.ctx.show(others[0].0, 12));
            *self.report.fork_places.entry(p).or_insert(0) += 1;
        }
        for (oc, ot, m) in others.into_iter().rev() {
            single = false;
            self.report.forks += 1;
            let mut n = st.clone();
            n.model = m;
            self.add(&mut n, oc);
            resume(&mut n, &ot);
            self.work.push(n);
        }
        if single {
            // implied by the path: remembered, but not needed as a constraint
            Rc::make_mut(&mut st.known).insert(c);
        } else {
            self.add(st, c);
        }
        Ok(t)
    }

    /// all values an expression can take on this path, one path for each
    fn concretize(&mut self, st: &mut State, e: Id) -> X<u64> {
        if let Some(v) = self.ctx.cv(e) {
            return Ok(v);
        }
        if let Some((fe, v)) = st.forced.take() {
            if fe == e {
                return Ok(v);
            }
        }
        if self.uses_uninit(st, e)? {
            self.violation(st, "uninit", 0, "an address, size or index depends on uninitialised memory", None);
            return Err(Stop::Violation);
        }
        let w = self.ctx.w(e);
        let v0 = self.eval(st, e);
        let mut found = vec![(v0, st.model.clone())];
        let k0 = self.ctx.c(v0, w);
        let e0 = self.ctx.eq(e, k0);
        let mut other = self.ctx.not(e0);
        if self.known(st, e0) == Some(true) {
            return Ok(v0);
        }
        loop {
            match self.feasible(st, other)? {
                None => break,
                Some(m) => {
                    let mut s2 = st.clone();
                    s2.model = m.clone();
                    let v = self.eval(&s2, e);
                    found.push((v, m));
                    if found.len() > self.limits.values {
                        return unsupported("too many values to enumerate");
                    }
                    let k = self.ctx.c(v, w);
                    let q = self.ctx.eq(e, k);
                    let nq = self.ctx.not(q);
                    other = self.ctx.and(other, nq);
                }
            }
        }
        if found.len() == 1 {
            Rc::make_mut(&mut st.known).insert(e0);
            return Ok(v0);
        }
        if self.trace {
            let p = format!("{} | value {}", self.place(st), self.ctx.show(e, 12));
            *self.report.fork_places.entry(p).or_insert(0) += 1;
        }
        for (v, m) in found.into_iter().skip(1).rev() {
            self.report.forks += 1;
            let mut n = st.clone();
            n.model = m;
            let k = self.ctx.c(v, w);
            let q = self.ctx.eq(e, k);
            self.add(&mut n, q);
            n.forced = Some((e, v));
            self.work.push(n);
        }
        self.add(st, e0);
        Ok(v0)
    }

    fn conc(&mut self, st: &mut State, v: &V) -> X<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::E(e) => self.concretize(st, *e),
            V::U => {
                self.violation(st, "uninit", 0, "an undefined value is used", None);
                Err(Stop::Violation)
            }
            V::A(_) => unsupported("aggregate used as scalar"),
        }
    }

    fn inputs_of(&self, st: &State, m: &Model) -> Vec<u64> {
        st.inputs
            .iter()
            .map(|r| match r {
                InRec::Val(v) => *v,
                InRec::Var(x) | InRec::Pre(x, _) => {
                    let i = &self.ctx.vars[*x as usize];
                    let p = if let InRec::Pre(_, p) = r { *p } else { 0 };
                    p | m.vals.get(x).copied().unwrap_or(i.lo & mask(i.w))
                }
            })
            .collect()
    }

    fn violation(&mut self, st: &State, kind: &str, id: u64, message: &str, model: Option<&Rc<Model>>) {
        let m = model.unwrap_or(&st.model).clone();
        let inputs = self.inputs_of(st, &m);
        let place = self.place(st);
        self.report.violations.push(Violation { kind: kind.into(), id, message: message.into(), place, inputs });
    }

    /// the condition has to hold
    fn require(&mut self, st: &mut State, c: Id, kind: &str, id: u64, message: &str) -> X<()> {
        if self.known(st, c) == Some(true) {
            return Ok(());
        }
        if kind == "check" && self.uses_uninit(st, c)? {
            self.violation(st, "uninit", id, "the outcome depends on uninitialised memory", None);
            return Err(Stop::Violation);
        }
        let n = self.ctx.not(c);
        match self.feasible(st, n)? {
            None => {
                Rc::make_mut(&mut st.known).insert(c);
                Ok(())
            }
            Some(m) => {
                self.violation(st, kind, id, message, Some(&m));
                // go on with the rest of the path, if any
                match self.feasible(st, c)? {
                    Some(m2) => {
                        st.model = m2;
                        self.add(st, c);
                        Ok(())
                    }
                    None => Err(Stop::Violation),
                }
            }
        }
    }

    // ---- memory ----

    fn find(&self, st: &State, addr: u64) -> Option<usize> {
        let id = (addr >> OBJ_SHIFT) as usize;
        if id == 0 || id > st.mem.len() || addr & FN_BASE != 0 {
            return None;
        }
        st.mem[id - 1].as_ref().map(|_| id - 1)
    }

    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: Kind, init: bool) -> u64 {
        let id = if kind == Kind::Stack && !st.free.is_empty() {
            st.free.pop().unwrap() as usize
        } else {
            st.mem.push(None);
            st.mem.len() - 1
        };
        let base = obj_base(id, align);
        st.mem[id] = Some(Rc::new(Obj {
            name: String::new(),
            base,
            size,
            align,
            kind,
            alive: true,
            data: vec![0; size as usize],
            cells: vec![],
            init: if init { vec![] } else { vec![0; size as usize] },
        }));
        base
    }

    /// concrete address of an access of n bytes, checked for all values of the address
    fn access(&mut self, st: &mut State, p: &V, n: u64, align: u64, write: bool) -> X<(usize, usize)> {
        self.report.memory_checks += 1;
        let a = match p {
            V::I(a) => *a,
            V::E(e) => {
                let e = *e;
                let a0 = self.eval(st, e);
                if st.forced.as_ref().map(|f| f.0) != Some(e) {
                    if let Some(o) = self.find(st, a0) {
                        let (base, size) = {
                            let o = st.mem[o].as_ref().unwrap();
                            (o.base, o.size)
                        };
                        if size >= n {
                            let b = self.ctx.c(base, 64);
                            let off = self.ctx.sub(e, b);
                            let lim = self.ctx.c(size - n, 64);
                            let ok = self.ctx.ule(off, lim);
                            if self.known(st, ok) != Some(true) {
                                let bad = self.ctx.not(ok);
                                if let Some(m) = self.feasible(st, bad)? {
                                    // another object may be meant: decided per value below
                                    let mut s2 = st.clone();
                                    s2.model = m.clone();
                                    let av = self.eval(&s2, e);
                                    if !self.valid(st, av, n) {
                                        self.violation(
                                            st,
                                            "memory",
                                            0,
                                            &format!("{} of {} bytes outside of the memory it may use", if write { "write" } else { "read" }, n),
                                            Some(&m),
                                        );
                                        return Err(Stop::Violation);
                                    }
                                }
                            }
                        }
                    }
                }
                self.concretize(st, e)?
            }
            V::U => {
                self.violation(st, "uninit", 0, "an undefined address is used", None);
                return Err(Stop::Violation);
            }
            V::A(_) => return unsupported("aggregate used as address"),
        };
        if n == 0 {
            return Ok((usize::MAX, 0));
        }
        let o = match self.find(st, a) {
            Some(o) => o,
            None => {
                self.violation(st, "memory", 0, &format!("access to address {:#x} that belongs to no object", a), None);
                return Err(Stop::Violation);
            }
        };
        let ob = st.mem[o].as_ref().unwrap();
        let off = a.wrapping_sub(ob.base);
        let problem = if !ob.alive {
            Some("use of freed memory".to_string())
        } else if off > ob.size || n > ob.size - off {
            Some(format!(
                "{} of {} bytes at offset {} of an object of {} bytes ({:?} {})",
                if write { "write" } else { "read" },
                n,
                off as i64,
                ob.size,
                ob.kind,
                ob.name
            ))
        } else if write && ob.kind == Kind::Const {
            Some("write to constant memory".to_string())
        } else if align > 1 && a % align != 0 {
            Some(format!("access needs alignment {} at offset {} of an object with alignment {}", align, off, ob.align))
        } else if ob.kind == Kind::Virtual {
            return unsupported("access to memory that only has a length");
        } else {
            None
        };
        if let Some(m) = problem {
            self.violation(st, "memory", 0, &m, None);
            return Err(Stop::Violation);
        }
        if let Kind::Window(from) = ob.kind {
            // the first bytes that are kept are always zeros
            let kept = ob.data.len() as u64 - ZEROS;
            if off >= from && off - from <= kept && n <= kept - (off - from) {
                return Ok((o, (off - from + ZEROS) as usize));
            }
            if !write && n <= ZEROS && (off >= from + kept || off + n <= from) {
                return Ok((o, 0));
            }
            return unsupported("large access or write outside of the window");
        }
        Ok((o, off as usize))
    }

    fn valid(&self, st: &State, a: u64, n: u64) -> bool {
        match self.find(st, a) {
            Some(o) => {
                let ob = st.mem[o].as_ref().unwrap();
                let off = a.wrapping_sub(ob.base);
                ob.alive && off <= ob.size && n <= ob.size - off
            }
            None => false,
        }
    }

    fn read_scalar(&mut self, st: &mut State, o: usize, off: usize, w: u32) -> X<V> {
        let n = ((w + 7) / 8) as usize;
        let ob = st.mem[o].clone().unwrap();
        let plain = ob.cells.is_empty() || ob.cells[off..off + n].iter().all(|c| *c == NOCELL);
        let init = ob.init.is_empty() || ob.init[off..off + n].iter().all(|c| *c != 0);
        if plain && init {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&ob.data[off..off + n]);
            return Ok(V::I(u64::from_le_bytes(b) & mask(w as u8)));
        }
        if !init && ob.init[off..off + n].iter().all(|c| *c == 0) {
            return Ok(V::U);
        }
        // pieces from low to high
        let mut pieces: Vec<Id> = vec![];
        let mut i = 0;
        while i < n {
            let ini = ob.init.is_empty() || ob.init[off + i] != 0;
            let cell = if ob.cells.is_empty() { NOCELL } else { ob.cells[off + i] };
            if !ini {
                let u = self.fresh_uninit(st, 8);
                pieces.push(u);
                i += 1;
            } else if cell == NOCELL {
                pieces.push(self.ctx.c(ob.data[off + i] as u64, 8));
                i += 1;
            } else {
                let (id, k) = ((cell >> 3) as Id, (cell & 7) as usize);
                let mut m = 1;
                while i + m < n
                    && (ob.init.is_empty() || ob.init[off + i + m] != 0)
                    && ob.cells[off + i + m] == (((id as u64) << 3) | (k + m) as u64)
                    && k + m < 8
                {
                    m += 1;
                }
                let x = self.ctx.extract(id, (k * 8) as u8, (m * 8) as u8);
                pieces.push(x);
                i += m;
            }
        }
        pieces.reverse();
        let e = if pieces.len() == 1 { pieces[0] } else { self.ctx.concat(pieces) };
        let e = if (w as u8) < self.ctx.w(e) { self.ctx.trunc(e, w as u8) } else { e };
        Ok(self.val(e))
    }

    fn write_scalar(&mut self, st: &mut State, o: usize, off: usize, w: u32, v: &V) -> X<()> {
        let n = ((w + 7) / 8) as usize;
        let ob = Rc::make_mut(st.mem[o].as_mut().unwrap());
        match v {
            V::I(x) => {
                ob.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !ob.cells.is_empty() {
                    ob.cells[off..off + n].fill(NOCELL);
                }
                if !ob.init.is_empty() {
                    ob.init[off..off + n].fill(1);
                }
            }
            V::E(e) => {
                let e = if w % 8 != 0 { self.ctx.zext(*e, (n * 8) as u8) } else { *e };
                if ob.cells.is_empty() {
                    ob.cells = vec![NOCELL; ob.data.len()];
                }
                for k in 0..n {
                    ob.cells[off + k] = ((e as u64) << 3) | k as u64;
                }
                if !ob.init.is_empty() {
                    ob.init[off..off + n].fill(1);
                }
            }
            V::U => {
                if ob.init.is_empty() {
                    ob.init = vec![1; ob.data.len()];
                }
                ob.init[off..off + n].fill(0);
                if !ob.cells.is_empty() {
                    ob.cells[off..off + n].fill(NOCELL);
                }
            }
            V::A(_) => return unsupported("aggregate stored as scalar"),
        }
        Ok(())
    }

    fn load_at(&mut self, st: &mut State, o: usize, off: usize, t: &Ty) -> X<V> {
        match t {
            Ty::Int(n) if *n <= 64 => self.read_scalar(st, o, off, *n),
            Ty::Ptr => self.read_scalar(st, o, off, 64),
            Ty::Int(n) => {
                let mut v = vec![];
                let mut k = 0;
                while k < *n {
                    let w = (*n - k).min(64);
                    v.push(self.read_scalar(st, o, off + (k / 8) as usize, w)?);
                    k += 64;
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vector(n, e) => {
                let b = e.bits();
                if b % 8 != 0 {
                    return unsupported("load of a vector of odd elements");
                }
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load_at(st, o, off + (i * b / 8) as usize, e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(..) | Ty::Array(..) => {
                let mut v = vec![];
                for i in 0..t.count() {
                    v.push(self.load_at(st, o, off + t.field_off(i) as usize, &t.elem(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Float(n) if *n <= 64 => self.read_scalar(st, o, off, *n),
            _ => unsupported(format!("load of {:?}", t)),
        }
    }

    fn store_at(&mut self, st: &mut State, o: usize, off: usize, t: &Ty, v: &V) -> X<()> {
        match t {
            Ty::Int(n) if *n <= 64 => self.write_scalar(st, o, off, *n, v),
            Ty::Ptr => self.write_scalar(st, o, off, 64, v),
            Ty::Float(n) if *n <= 64 => self.write_scalar(st, o, off, *n, v),
            Ty::Int(n) => {
                let l = self.limbs(v, *n)?;
                let mut k = 0;
                for x in l.iter() {
                    let w = (*n - k).min(64);
                    self.write_scalar(st, o, off + (k / 8) as usize, w, x)?;
                    k += 64;
                }
                Ok(())
            }
            Ty::Vector(..) | Ty::Struct(..) | Ty::Array(..) => {
                let b = if let Ty::Vector(_, e) = t { e.bits() } else { 8 };
                if b % 8 != 0 {
                    return unsupported("store of a vector of odd elements");
                }
                for i in 0..t.count() {
                    let x = self.elem(v, i)?;
                    self.store_at(st, o, off + t.field_off(i) as usize, &t.elem(i), &x)?;
                }
                Ok(())
            }
            _ => unsupported(format!("store of {:?}", t)),
        }
    }

    fn copy(&mut self, st: &mut State, dst: &V, src: &V, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        // a symbolic address may fork here: nothing has been changed yet
        let (so, soff) = self.access(st, src, n, 1, false)?;
        let (d, doff) = self.access(st, dst, n, 1, true)?;
        let n = n as usize;
        let s = st.mem[so].clone().unwrap();
        let ob = Rc::make_mut(st.mem[d].as_mut().unwrap());
        ob.data[doff..doff + n].copy_from_slice(&s.data[soff..soff + n]);
        if s.cells.is_empty() {
            if !ob.cells.is_empty() {
                ob.cells[doff..doff + n].fill(NOCELL);
            }
        } else {
            if ob.cells.is_empty() {
                ob.cells = vec![NOCELL; ob.data.len()];
            }
            ob.cells[doff..doff + n].copy_from_slice(&s.cells[soff..soff + n]);
        }
        if s.init.is_empty() {
            if !ob.init.is_empty() {
                ob.init[doff..doff + n].fill(1);
            }
        } else {
            if ob.init.is_empty() {
                ob.init = vec![1; ob.data.len()];
            }
            ob.init[doff..doff + n].copy_from_slice(&s.init[soff..soff + n]);
        }
        Ok(())
    }

    // ---- aggregates and wide integers ----

    fn elem(&self, v: &V, i: usize) -> X<V> {
        match v {
            V::A(a) => Ok(a[i].clone()),
            V::U => Ok(V::U),
            _ => unsupported("element of a scalar"),
        }
    }

    fn limbs(&self, v: &V, n: u32) -> X<Vec<V>> {
        match v {
            V::A(a) => Ok(a.to_vec()),
            V::U => Ok(vec![V::U; ((n + 63) / 64) as usize]),
            _ => unsupported("scalar used as wide integer"),
        }
    }

    /// scalar pieces of a value from low to high with their widths
    fn pieces(&self, v: &V, t: &Ty) -> X<Vec<(V, u32)>> {
        match t {
            Ty::Int(n) | Ty::Float(n) if *n <= 64 => Ok(vec![(v.clone(), *n)]),
            Ty::Ptr => Ok(vec![(v.clone(), 64)]),
            Ty::Int(n) => {
                let l = self.limbs(v, *n)?;
                Ok(l.into_iter().enumerate().map(|(i, x)| (x, (*n - 64 * i as u32).min(64))).collect())
            }
            Ty::Vector(n, e) => {
                let mut r = vec![];
                for i in 0..*n as usize {
                    r.extend(self.pieces(&self.elem(v, i)?, e)?);
                }
                Ok(r)
            }
            _ => unsupported("bits of an aggregate"),
        }
    }

    /// the same bits in pieces of other widths
    fn repiece(&mut self, st: &mut State, src: &[(V, u32)], widths: &[u32]) -> X<Vec<V>> {
        let mut r = Vec::with_capacity(widths.len());
        let (mut i, mut used) = (0usize, 0u32);
        for &w in widths {
            if i < src.len() && used == 0 && src[i].1 == w {
                r.push(src[i].0.clone());
                i += 1;
                continue;
            }
            let mut need = w;
            let mut parts: Vec<Id> = vec![];
            let mut all_undef = true;
            let (mut i2, mut used2) = (i, used);
            let mut need2 = need;
            while need2 > 0 {
                let (v, sw) = &src[i2];
                if !matches!(v, V::U) {
                    all_undef = false;
                }
                let take = need2.min(sw - used2);
                need2 -= take;
                used2 += take;
                if used2 == *sw {
                    i2 += 1;
                    used2 = 0;
                }
            }
            if all_undef {
                r.push(V::U);
                i = i2;
                used = used2;
                continue;
            }
            while need > 0 {
                let (v, sw) = src[i].clone();
                let take = need.min(sw - used);
                let e = self.ex(st, &v, sw)?;
                parts.push(self.ctx.extract(e, used as u8, take as u8));
                need -= take;
                used += take;
                if used == sw {
                    i += 1;
                    used = 0;
                }
            }
            parts.reverse();
            let e = if parts.len() == 1 { parts[0] } else { self.ctx.concat(parts) };
            r.push(self.val(e));
        }
        Ok(r)
    }

    fn widths(t: &Ty) -> Vec<u32> {
        match t {
            Ty::Int(n) | Ty::Float(n) if *n <= 64 => vec![*n],
            Ty::Ptr => vec![64],
            Ty::Int(n) => {
                let mut v = vec![];
                let mut k = 0;
                while k < *n {
                    v.push((*n - k).min(64));
                    k += 64;
                }
                v
            }
            Ty::Vector(n, e) => {
                let w = Self::widths(e);
                let mut v = vec![];
                for _ in 0..*n {
                    v.extend(&w);
                }
                v
            }
            _ => vec![],
        }
    }

    fn unpiece(&self, v: Vec<V>, t: &Ty) -> V {
        match t {
            Ty::Int(n) if *n > 64 => V::A(Rc::new(v)),
            Ty::Vector(n, e) => {
                let k = v.len() / *n as usize;
                if k == 1 {
                    V::A(Rc::new(v))
                } else {
                    V::A(Rc::new(v.chunks(k).map(|c| self.unpiece(c.to_vec(), e)).collect()))
                }
            }
            _ => v.into_iter().next().unwrap(),
        }
    }

    fn bitcast(&mut self, st: &mut State, v: &V, from: &Ty, to: &Ty) -> X<V> {
        if from == to {
            return Ok(v.clone());
        }
        let p = self.pieces(v, from)?;
        let w = Self::widths(to);
        let r = self.repiece(st, &p, &w)?;
        Ok(self.unpiece(r, to))
    }

    // ---- operations ----

    fn bin(&mut self, st: &mut State, op: BinOp, t: &Ty, a: &V, b: &V) -> X<V> {
        match t {
            Ty::Int(w) if *w <= 64 => self.bin_s(st, op, *w, a, b),
            Ty::Ptr => self.bin_s(st, op, 64, a, b),
            Ty::Vector(n, e) => {
                let mut r = Vec::with_capacity(*n as usize);
                for i in 0..*n as usize {
                    let (x, y) = (self.elem(a, i)?, self.elem(b, i)?);
                    r.push(self.bin(st, op, e, &x, &y)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            Ty::Int(w) => {
                let (x, y) = (self.limbs(a, *w)?, self.limbs(b, *w)?);
                match op {
                    BinOp::And | BinOp::Or | BinOp::Xor => {
                        let mut r = vec![];
                        for (i, (p, q)) in x.iter().zip(&y).enumerate() {
                            r.push(self.bin_s(st, op, (*w - 64 * i as u32).min(64), p, q)?);
                        }
                        Ok(V::A(Rc::new(r)))
                    }
                    BinOp::Shl | BinOp::LShr => {
                        let s = match &y[0] {
                            V::I(s) => *s as u32,
                            V::E(e) => self.concretize(st, *e)? as u32,
                            _ => return unsupported("shift of a wide integer"),
                        };
                        let p = self.pieces(a, t)?;
                        let mut src: Vec<(V, u32)> = vec![];
                        let zeros = |src: &mut Vec<(V, u32)>, mut n: u32| {
                            while n > 0 {
                                let k = n.min(64);
                                src.push((V::I(0), k));
                                n -= k;
                            }
                        };
                        if op == BinOp::Shl {
                            zeros(&mut src, s);
                            src.extend(p);
                            let wd = Self::widths(t);
                            let r = self.repiece(st, &src, &wd)?;
                            Ok(V::A(Rc::new(r)))
                        } else {
                            src.extend(p);
                            zeros(&mut src, s);
                            // skip the low s bits
                            let mut wd = vec![];
                            let mut n = s;
                            while n > 0 {
                                wd.push(n.min(64));
                                n -= n.min(64);
                            }
                            let k = wd.len();
                            wd.extend(Self::widths(t));
                            let r = self.repiece(st, &src, &wd)?;
                            Ok(V::A(Rc::new(r[k..].to_vec())))
                        }
                    }
                    BinOp::Add | BinOp::Sub | BinOp::Mul if *w == 128 => {
                        let g = |l: &[V]| -> Option<u128> {
                            match (&l[0], &l[1]) {
                                (V::I(a), V::I(b)) => Some(*a as u128 | (*b as u128) << 64),
                                _ => None,
                            }
                        };
                        match (g(&x), g(&y)) {
                            (Some(p), Some(q)) => {
                                let r = match op {
                                    BinOp::Add => p.wrapping_add(q),
                                    BinOp::Sub => p.wrapping_sub(q),
                                    _ => p.wrapping_mul(q),
                                };
                                Ok(V::A(Rc::new(vec![V::I(r as u64), V::I((r >> 64) as u64)])))
                            }
                            _ => unsupported("wide arithmetic on symbolic values"),
                        }
                    }
                    _ => unsupported("wide arithmetic"),
                }
            }
            _ => unsupported(format!("operation on {:?}", t)),
        }
    }

    fn bin_s(&mut self, st: &mut State, op: BinOp, w: u32, a: &V, b: &V) -> X<V> {
        let w8 = w as u8;
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => {
                    return unsupported("division by zero without a check")
                }
                BinOp::UDiv => x / y,
                BinOp::URem => x % y,
                BinOp::SDiv => (sext64(x, w8) as i128 / sext64(y, w8) as i128) as u64,
                BinOp::SRem => (sext64(x, w8) as i128 % sext64(y, w8) as i128) as u64,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => (sext64(x, w8) >> y.min(63)) as u64,
            };
            return Ok(V::I(r & mask(w8)));
        }
        // undefined operands stay undefined where that loses nothing
        if matches!((a, b), (V::U, V::U)) {
            return Ok(V::U);
        }
        let x = self.ex(st, a, w)?;
        let y = self.ex(st, b, w)?;
        let c = &mut self.ctx;
        let r = match op {
            BinOp::Add => c.add(x, y),
            BinOp::Sub => c.sub(x, y),
            BinOp::Mul => c.mul(x, y),
            BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                if c.n(y).ulo == 0 {
                    let z = c.c(0, w8);
                    let e = c.eq(y, z);
                    let ok = c.not(e);
                    self.require(st, ok, "panic", 0, "division by zero")?;
                }
                let c = &mut self.ctx;
                match op {
                    BinOp::UDiv => c.udiv(x, y),
                    BinOp::URem => c.urem(x, y),
                    BinOp::SDiv => c.sdiv(x, y),
                    _ => c.srem(x, y),
                }
            }
            BinOp::And => c.and(x, y),
            BinOp::Or => c.or(x, y),
            BinOp::Xor => c.xor(x, y),
            BinOp::Shl | BinOp::LShr | BinOp::AShr => {
                if let V::I(s) = b {
                    let s = (*s).min(255) as u8;
                    if s as u32 >= w {
                        if op == BinOp::AShr {
                            c.ashr_c(x, w8 - 1)
                        } else {
                            c.c(0, w8)
                        }
                    } else {
                        match op {
                            BinOp::Shl => c.shl_c(x, s),
                            BinOp::LShr => c.lshr_c(x, s),
                            _ => c.ashr_c(x, s),
                        }
                    }
                } else {
                    c.shift(
                        match op {
                            BinOp::Shl => 0,
                            BinOp::LShr => 1,
                            _ => 2,
                        },
                        x,
                        y,
                    )
                }
            }
        };
        Ok(self.val(r))
    }

    fn icmp(&mut self, st: &mut State, p: Pred, t: &Ty, a: &V, b: &V) -> X<V> {
        match t {
            Ty::Vector(n, e) => {
                let mut r = vec![];
                for i in 0..*n as usize {
                    let (x, y) = (self.elem(a, i)?, self.elem(b, i)?);
                    r.push(self.icmp(st, p, e, &x, &y)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            Ty::Int(w) if *w > 64 => {
                let (x, y) = (self.limbs(a, *w)?, self.limbs(b, *w)?);
                // from the low limb upwards: less so far, equal so far
                let mut eq = self.ctx.c(1, 1);
                let mut lt = self.ctx.c(0, 1);
                let k = x.len();
                for i in 0..k {
                    let wi = (*w - 64 * i as u32).min(64);
                    let (p1, q1) = (self.ex(st, &x[i], wi)?, self.ex(st, &y[i], wi)?);
                    let e = self.ctx.eq(p1, q1);
                    let signed = i == k - 1 && matches!(p, Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle);
                    let l = if signed { self.ctx.slt(p1, q1) } else { self.ctx.ult(p1, q1) };
                    let keep = self.ctx.and(e, lt);
                    lt = self.ctx.or(l, keep);
                    eq = self.ctx.and(eq, e);
                }
                let r = match p {
                    Pred::Eq => eq,
                    Pred::Ne => self.ctx.not(eq),
                    Pred::Ult | Pred::Slt => lt,
                    Pred::Uge | Pred::Sge => self.ctx.not(lt),
                    Pred::Ule | Pred::Sle => self.ctx.or(lt, eq),
                    Pred::Ugt | Pred::Sgt => {
                        let le = self.ctx.or(lt, eq);
                        self.ctx.not(le)
                    }
                };
                Ok(self.val(r))
            }
            _ => {
                let w = t.bits() as u32;
                let w8 = w as u8;
                if let (V::I(x), V::I(y)) = (a, b) {
                    let (x, y) = (*x, *y);
                    let (sx, sy) = (sext64(x, w8), sext64(y, w8));
                    let r = match p {
                        Pred::Eq => x == y,
                        Pred::Ne => x != y,
                        Pred::Ugt => x > y,
                        Pred::Uge => x >= y,
                        Pred::Ult => x < y,
                        Pred::Ule => x <= y,
                        Pred::Sgt => sx > sy,
                        Pred::Sge => sx >= sy,
                        Pred::Slt => sx < sy,
                        Pred::Sle => sx <= sy,
                    };
                    return Ok(V::I(r as u64));
                }
                let x = self.ex(st, a, w)?;
                let y = self.ex(st, b, w)?;
                let c = &mut self.ctx;
                let r = match p {
                    Pred::Eq => c.eq(x, y),
                    Pred::Ne => {
                        let e = c.eq(x, y);
                        c.not(e)
                    }
                    Pred::Ugt => c.ult(y, x),
                    Pred::Uge => c.ule(y, x),
                    Pred::Ult => c.ult(x, y),
                    Pred::Ule => c.ule(x, y),
                    Pred::Sgt => c.slt(y, x),
                    Pred::Sge => c.sle(y, x),
                    Pred::Slt => c.slt(x, y),
                    Pred::Sle => c.sle(x, y),
                };
                Ok(self.val(r))
            }
        }
    }

    fn cast(&mut self, st: &mut State, op: CastOp, t: &Ty, a: &V, to: &Ty) -> X<V> {
        if op == CastOp::Bitcast {
            return self.bitcast(st, a, t, to);
        }
        if let (Ty::Vector(n, e), Ty::Vector(_, e2)) = (t, to) {
            let mut r = vec![];
            for i in 0..*n as usize {
                let x = self.elem(a, i)?;
                r.push(self.cast(st, op, e, &x, e2)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let (fw, tw) = (t.bits() as u32, to.bits() as u32);
        if fw > 64 || tw > 64 {
            if fw == tw {
                return Ok(a.clone());
            }
            let mut p = self.pieces(a, t)?;
            if tw > fw {
                if op == CastOp::SExt {
                    return unsupported("wide sign extension");
                }
                let mut n = tw - fw;
                while n > 0 {
                    p.push((V::I(0), n.min(64)));
                    n -= n.min(64);
                }
            }
            let wd = Self::widths(to);
            let r = self.repiece(st, &p, &wd)?;
            return Ok(self.unpiece(r, to));
        }
        let op = match op {
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if tw < fw {
                    CastOp::Trunc
                } else if tw > fw {
                    CastOp::ZExt
                } else {
                    return Ok(a.clone());
                }
            }
            o => o,
        };
        match a {
            V::I(x) => Ok(V::I(match op {
                CastOp::Trunc => x & mask(tw as u8),
                CastOp::ZExt => *x,
                _ => sext64(*x, fw as u8) as u64 & mask(tw as u8),
            })),
            V::E(e) => {
                let r = match op {
                    CastOp::Trunc => self.ctx.trunc(*e, tw as u8),
                    CastOp::ZExt => self.ctx.zext(*e, tw as u8),
                    _ => self.ctx.sext(*e, tw as u8),
                };
                Ok(self.val(r))
            }
            V::U => {
                if op == CastOp::Trunc {
                    Ok(V::U)
                } else {
                    let e = self.fresh_uninit(st, fw as u8);
                    let r = if op == CastOp::ZExt { self.ctx.zext(e, tw as u8) } else { self.ctx.sext(e, tw as u8) };
                    Ok(self.val(r))
                }
            }
            V::A(_) => unsupported("cast of an aggregate"),
        }
    }

    fn select(&mut self, st: &mut State, c: Id, t: &Ty, a: &V, b: &V) -> X<V> {
        match t {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let mut r = vec![];
                for i in 0..t.count() {
                    let (x, y) = (self.elem(a, i)?, self.elem(b, i)?);
                    r.push(self.select(st, c, &t.elem(i), &x, &y)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            Ty::Int(w) if *w > 64 => {
                let (x, y) = (self.limbs(a, *w)?, self.limbs(b, *w)?);
                let mut r = vec![];
                for i in 0..x.len() {
                    let wi = Ty::Int((*w - 64 * i as u32).min(64));
                    r.push(self.select(st, c, &wi, &x[i], &y[i])?);
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => {
                let w = t.bits() as u32;
                if matches!((a, b), (V::U, V::U)) {
                    return Ok(V::U);
                }
                let (x, y) = (self.ex(st, a, w)?, self.ex(st, b, w)?);
                let r = self.ctx.ite(c, x, y);
                Ok(self.val(r))
            }
        }
    }

    fn set(&mut self, st: &mut State, dst: u32, v: V) {
        if dst != NOREG {
            st.frames.last_mut().unwrap().regs[dst as usize] = v;
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let f = st.frames.last_mut().unwrap();
        f.prev = f.block;
        f.block = to;
        f.ip = 0;
        // evaluate the phis together
        let blk = &self.prog.funcs[f.func].blocks[to as usize];
        let mut vals: Vec<(u32, V)> = vec![];
        let prev = f.prev;
        let mut n = 0;
        for (dst, inst) in blk.iter() {
            if let Inst::Phi(_, alts) = inst {
                n += 1;
                match alts.iter().find(|a| a.1 == prev) {
                    Some((o, _)) => vals.push((*dst, self.get(st, o))),
                    None => return unsupported("phi without matching block"),
                }
            } else {
                break;
            }
        }
        let f = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            f.regs[d as usize] = v;
        }
        f.ip = n;
        Ok(())
    }

    /// a few thousand instructions
    fn burst(&mut self, st: &mut State) -> X<()> {
        for _ in 0..4096 {
            self.step(st)?;
        }
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        st.insts += 1;
        let prog = self.prog;
        let f = st.frames.last().unwrap();
        let (dst, inst) = &prog.funcs[f.func].blocks[f.block as usize][f.ip as usize];
        let dst = *dst;
        match inst {
            Inst::Bin(op, t, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let v = self.bin(st, *op, t, &a, &b)?;
                self.set(st, dst, v);
            }
            Inst::ICmp(p, t, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let v = self.icmp(st, *p, t, &a, &b)?;
                self.set(st, dst, v);
            }
            Inst::Cast(op, t, a, to) => {
                let a = self.get(st, a);
                let v = self.cast(st, *op, t, &a, to)?;
                self.set(st, dst, v);
            }
            Inst::Load(t, p, al) => {
                let p = self.get(st, p);
                let n = t.store_size();
                let (o, off) = self.access(st, &p, n, *al, false)?;
                let v = self.load_at(st, o, off, t)?;
                self.set(st, dst, v);
            }
            Inst::Store(t, v, p, al) => {
                let p = self.get(st, p);
                let v = self.get(st, v);
                let n = t.store_size();
                let (o, off) = self.access(st, &p, n, *al, true)?;
                self.store_at(st, o, off, t, &v)?;
            }
            Inst::GepC(b, off, ix) => {
                let b = self.get(st, b);
                let mut cur = match b {
                    V::I(a) => V::I(a.wrapping_add(*off)),
                    V::E(e) => {
                        let k = self.ctx.c(*off, 64);
                        let r = self.ctx.add(e, k);
                        self.val(r)
                    }
                    v => v,
                };
                for (o, w, scale) in ix {
                    let i = self.get(st, o);
                    cur = match (&cur, &i) {
                        (V::I(a), V::I(i)) => V::I(a.wrapping_add((sext64(*i, *w as u8) as u64).wrapping_mul(*scale))),
                        (V::U, _) => V::U,
                        _ => {
                            let a = self.ex(st, &cur, 64)?;
                            let e = self.ex(st, &i, *w)?;
                            let e = if *w < 64 { self.ctx.sext(e, 64) } else { e };
                            let e = self.ctx.scale(e, *scale);
                            let r = self.ctx.add(a, e);
                            self.val(r)
                        }
                    };
                }
                self.set(st, dst, cur);
            }
            Inst::Gep(..) => return unsupported("address computation"),
            Inst::Alloca(size, align) => {
                let a = self.alloc(st, (*size).max(1), *align, Kind::Stack, false);
                let id = ((a >> OBJ_SHIFT) - 1) as u32;
                st.frames.last_mut().unwrap().allocas.push(id);
                self.set(st, dst, V::I(a));
            }
            Inst::Select(ct, t, c, a, b) => {
                let (c, a, b) = (self.get(st, c), self.get(st, a), self.get(st, b));
                let v = match (&c, ct) {
                    (V::I(x), Ty::Int(_)) => {
                        if *x != 0 {
                            a
                        } else {
                            b
                        }
                    }
                    (_, Ty::Vector(n, _)) => {
                        let e = t.elem(0);
                        let mut r = vec![];
                        for i in 0..*n as usize {
                            let (x, y) = (self.elem(&a, i)?, self.elem(&b, i)?);
                            r.push(match self.elem(&c, i)? {
                                V::I(k) => {
                                    if k != 0 {
                                        x
                                    } else {
                                        y
                                    }
                                }
                                cv => {
                                    let ce = self.ex(st, &cv, 1)?;
                                    self.select(st, ce, &e, &x, &y)?
                                }
                            });
                        }
                        V::A(Rc::new(r))
                    }
                    _ => {
                        let ce = self.ex(st, &c, 1)?;
                        match self.known(st, ce) {
                            Some(true) => a,
                            Some(false) => b,
                            None => self.select(st, ce, t, &a, &b)?,
                        }
                    }
                };
                self.set(st, dst, v);
            }
            Inst::Phi(..) => return unsupported("phi in the middle of a block"),
            Inst::Br(to) => return self.jump(st, *to),
            Inst::CondBr(c, a, b) => {
                let c = self.get(st, c);
                let to = match c {
                    V::I(x) => {
                        if x != 0 {
                            *a
                        } else {
                            *b
                        }
                    }
                    V::E(e) => {
                        let n = self.ctx.not(e);
                        let alts = vec![(e, *a), (n, *b)];
                        // the other path executes the branch again with the condition known
                        self.choose_path(st, alts, |_, _| {})?
                    }
                    V::U => {
                        self.violation(st, "uninit", 0, "a branch depends on uninitialised memory", None);
                        return Err(Stop::Violation);
                    }
                    V::A(_) => return unsupported("branch on an aggregate"),
                };
                return self.jump(st, to);
            }
            Inst::Switch(t, v, d, cases) => {
                let v = self.get(st, v);
                let w = t.bits() as u32;
                let to = match v {
                    V::I(x) => cases.iter().find(|c| c.0 as u64 == x).map(|c| c.1).unwrap_or(*d),
                    V::U => {
                        self.violation(st, "uninit", 0, "a branch depends on uninitialised memory", None);
                        return Err(Stop::Violation);
                    }
                    _ => {
                        let e = self.ex(st, &v, w)?;
                        let mut alts = vec![];
                        let mut def = self.ctx.c(1, 1);
                        for (k, l) in cases {
                            let kc = self.ctx.c(*k as u64, w as u8);
                            let q = self.ctx.eq(e, kc);
                            alts.push((q, *l));
                            let nq = self.ctx.not(q);
                            def = self.ctx.and(def, nq);
                        }
                        alts.push((def, *d));
                        self.choose_path(st, alts, |_, _| {})?
                    }
                };
                return self.jump(st, to);
            }
            Inst::Ret(_, v) => {
                let v = v.as_ref().map(|v| self.get(st, v));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.mem[a as usize] = None;
                    st.free.push(a);
                }
                if st.frames.is_empty() {
                    return Err(Stop::End);
                }
                let caller = st.frames.last_mut().unwrap();
                if let (Some(v), true) = (v, fr.dst != NOREG) {
                    caller.regs[fr.dst as usize] = v;
                }
                caller.ip += 1;
                return Ok(());
            }
            Inst::Bad(e) => return unsupported(e),
            Inst::Unreachable => {
                self.violation(st, "ub", 0, "code is reached that the compiler takes to be unreachable", None);
                return Err(Stop::Violation);
            }
            Inst::Call(rt, fo, args) => {
                let fv = self.get(st, fo);
                let fa = match fv {
                    V::I(a) => a,
                    V::E(e) => self.concretize(st, e)?,
                    _ => return unsupported("call of an undefined address"),
                };
                if fa & FN_BASE == 0 {
                    return unsupported(format!("call of address {:#x}", fa));
                }
                let k = ((fa & !FN_BASE) >> 4) as usize;
                match &prog.syms[k].target {
                    Target::Func(i) => {
                        let mut fr = self.frame(*i, dst);
                        for (n, (_, a)) in args.iter().enumerate() {
                            if n < prog.funcs[*i].nparams {
                                fr.regs[n] = self.get(st, a);
                            }
                        }
                        if st.frames.len() > 400 {
                            return unsupported("call depth");
                        }
                        st.frames.push(fr);
                        return Ok(());
                    }
                    Target::NoReturn => return self.panic(st, k, args),
                    Target::Unknown => return unsupported(format!("call of {}", prog.syms[k].name)),
                    Target::Builtin(b) => {
                        let a: Vec<V> = args.iter().map(|(_, a)| self.get(st, a)).collect();
                        let v = self.builtin(st, b, rt, args, &a)?;
                        self.set(st, dst, v);
                    }
                }
            }
            Inst::ExtractValue(_, a, ix) => {
                let mut v = self.get(st, a);
                for i in ix {
                    v = self.elem(&v, *i)?;
                }
                self.set(st, dst, v);
            }
            Inst::InsertValue(t, a, _, x, ix) => {
                fn put(t: &Ty, v: V, x: V, ix: &[usize]) -> V {
                    if ix.is_empty() {
                        return x;
                    }
                    let mut l: Vec<V> = match &v {
                        V::A(a) => a.to_vec(),
                        _ => vec![V::U; t.count()],
                    };
                    let old = l[ix[0]].clone();
                    l[ix[0]] = put(&t.elem(ix[0]), old, x, &ix[1..]);
                    V::A(Rc::new(l))
                }
                let (v, x) = (self.get(st, a), self.get(st, x));
                let r = put(t, v, x, ix);
                self.set(st, dst, r);
            }
            Inst::ExtractElement(_, a, _, i) => {
                let (v, i) = (self.get(st, a), self.get(st, i));
                let i = self.conc(st, &i)?;
                let r = self.elem(&v, i as usize)?;
                self.set(st, dst, r);
            }
            Inst::InsertElement(t, a, x, _, i) => {
                let (v, x, i) = (self.get(st, a), self.get(st, x), self.get(st, i));
                let i = self.conc(st, &i)? as usize;
                let mut l: Vec<V> = match &v {
                    V::A(a) => a.to_vec(),
                    _ => vec![V::U; t.count()],
                };
                l[i] = x;
                self.set(st, dst, V::A(Rc::new(l)));
            }
            Inst::Shuffle(t, a, b, m) => {
                let n = t.count();
                let (a, b) = (self.get(st, a), self.get(st, b));
                let mut r = vec![];
                for k in m {
                    r.push(match k {
                        None => V::U,
                        Some(k) if (*k as usize) < n => self.elem(&a, *k as usize)?,
                        Some(k) => self.elem(&b, *k as usize - n)?,
                    });
                }
                self.set(st, dst, V::A(Rc::new(r)));
            }
            Inst::Freeze(_, a) => {
                let v = self.get(st, a);
                self.set(st, dst, v);
            }
            Inst::AtomicRmw(op, t, p, v) => {
                let (p, v) = (self.get(st, p), self.get(st, v));
                let (o, off) = self.access(st, &p, t.store_size(), 1, true)?;
                let old = self.load_at(st, o, off, t)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(st, BinOp::Add, t, &old, &v)?,
                    "sub" => self.bin(st, BinOp::Sub, t, &old, &v)?,
                    "and" => self.bin(st, BinOp::And, t, &old, &v)?,
                    "or" => self.bin(st, BinOp::Or, t, &old, &v)?,
                    _ => return unsupported("atomic operation"),
                };
                self.store_at(st, o, off, t, &new)?;
                self.set(st, dst, old);
            }
            Inst::CmpXchg(t, p, c, n) => {
                let (p, c, n) = (self.get(st, p), self.get(st, c), self.get(st, n));
                let (o, off) = self.access(st, &p, t.store_size(), 1, true)?;
                let old = self.load_at(st, o, off, t)?;
                let e = match self.icmp(st, Pred::Eq, t, &old, &c)? {
                    V::I(x) => x != 0,
                    _ => return unsupported("symbolic compare and exchange"),
                };
                if e {
                    self.store_at(st, o, off, t, &n)?;
                }
                self.set(st, dst, V::A(Rc::new(vec![old, V::I(e as u64)])));
            }
            Inst::Nop => {}
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn peek_u64(&self, st: &State, a: u64) -> Option<u64> {
        let o = self.find(st, a)?;
        let ob = st.mem[o].as_ref()?;
        let off = a.wrapping_sub(ob.base) as usize;
        if off + 8 > ob.data.len() {
            return None;
        }
        Some(u64::from_le_bytes(ob.data[off..off + 8].try_into().unwrap()))
    }

    fn peek_str(&self, st: &State, a: u64, n: u64) -> Option<String> {
        let o = self.find(st, a)?;
        let ob = st.mem[o].as_ref()?;
        let off = a.wrapping_sub(ob.base) as usize;
        let n = n as usize;
        if off + n > ob.data.len() || n > 500 {
            return None;
        }
        Some(String::from_utf8_lossy(&ob.data[off..off + n]).into_owned())
    }

    fn panic(&mut self, st: &mut State, sym: usize, args: &[(Ty, Op)]) -> X<()> {
        let name = self.prog.syms[sym].name.clone();
        // a debug assertion of an unsafe function
        if name.contains("nounwind") && args.len() >= 2 {
            if let (V::I(p), V::I(n)) = (self.get(st, &args[0].1), self.get(st, &args[1].1)) {
                // format arguments without parameters have twice the length and one more
                let n = if name.contains("fmt") { n >> 1 } else { n };
                if let Some(s) = self.peek_str(st, p, n) {
                    if s.starts_with("unsafe precondition") {
                        self.violation(st, "ub", 0, &s, None);
                        return Err(Stop::Violation);
                    }
                }
            }
        }
        if st.expect_panic {
            self.report.expected_panics += 1;
            return Err(Stop::End);
        }
        // the last pointer argument is the location
        let mut place = String::new();
        let mut msg = String::new();
        if let Some((Ty::Ptr, o)) = args.last() {
            if let V::I(a) = self.get(st, o) {
                if let (Some(p), Some(n), Some(lc)) = (self.peek_u64(st, a), self.peek_u64(st, a + 8), self.peek_u64(st, a + 16)) {
                    if let Some(f) = self.peek_str(st, p, n.saturating_sub(0)) {
                        place = format!(" at {}:{}:{}", f.trim_end_matches('\0'), lc as u32, lc >> 32);
                    }
                }
            }
        }
        if args.len() >= 3 {
            if let (V::I(p), V::I(n)) = (self.get(st, &args[0].1), self.get(st, &args[1].1)) {
                if let Some(s) = self.peek_str(st, p, n) {
                    msg = format!(": {}", s);
                }
            }
        }
        self.violation(st, "panic", 0, &format!("{}{}{}", name, msg, place), None);
        Err(Stop::Violation)
    }

    fn overflow(&mut self, st: &mut State, op: char, signed: bool, w: u32, a: &V, b: &V) -> X<V> {
        let w8 = w as u8;
        if let (V::I(x), V::I(y)) = (a, b) {
            let (r, o): (i128, bool) = if signed {
                let (x, y) = (sext64(*x, w8) as i128, sext64(*y, w8) as i128);
                let r = match op {
                    '+' => x + y,
                    '-' => x - y,
                    _ => x * y,
                };
                (r, r < -(1i128 << (w - 1)) || r >= (1i128 << (w - 1)))
            } else {
                let (x, y) = (*x as u128, *y as u128);
                match op {
                    '+' => ((x + y) as i128, x + y >= 1u128 << w),
                    '-' => (x as i128 - y as i128, x < y),
                    _ => ((x * y) as i128, x * y >= 1u128 << w),
                }
            };
            return Ok(V::A(Rc::new(vec![V::I(r as u64 & mask(w8)), V::I(o as u64)])));
        }
        let (x, y) = (self.ex(st, a, w)?, self.ex(st, b, w)?);
        let c = &mut self.ctx;
        let r = match op {
            '+' => c.add(x, y),
            '-' => c.sub(x, y),
            _ => c.mul(x, y),
        };
        // decide by bounds first
        if signed && w >= 16 && op != '*' {
            let mut f = (*c.form(x, true)).clone();
            let g = c.form(y, true);
            f.add(&g, if op == '+' { 1 } else { -1 });
            let (l, h) = c.form_range(&f);
            if l >= -(1i128 << (w - 1)) && h < (1i128 << (w - 1)) {
                return Ok(V::A(Rc::new(vec![self.val(r), V::I(0)])));
            }
        }
        let (nx, ny) = (c.n(x).clone(), c.n(y).clone());
        let (l, h, min, max): (i128, i128, i128, i128) = {
            let (xl, xh, yl, yh) = if signed {
                (nx.slo as i128, nx.shi as i128, ny.slo as i128, ny.shi as i128)
            } else {
                (nx.ulo as i128, nx.uhi as i128, ny.ulo as i128, ny.uhi as i128)
            };
            let (min, max) =
                if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, mask(w8) as i128) };
            match op {
                '+' => (xl + yl, xh + yh, min, max),
                '-' => (xl - yh, xh - yl, min, max),
                _ => {
                    let p: Vec<Option<i128>> =
                        vec![xl.checked_mul(yl), xl.checked_mul(yh), xh.checked_mul(yl), xh.checked_mul(yh)];
                    if p.iter().any(|x| x.is_none()) {
                        (i128::MIN, i128::MAX, min, max)
                    } else {
                        let q: Vec<i128> = p.into_iter().map(|x| x.unwrap()).collect();
                        (*q.iter().min().unwrap(), *q.iter().max().unwrap(), min, max)
                    }
                }
            }
        };
        let ov = if l >= min && h <= max {
            c.c(0, 1)
        } else if h < min || l > max {
            c.c(1, 1)
        } else {
            match (op, signed) {
                ('+', false) => c.ult(r, x),
                ('-', false) => c.ult(x, y),
                ('+', true) | ('-', true) | ('*', _) if w < 32 || (w == 32 && op == '*') || (w < 64 && op != '*') => {
                    let ww = if op == '*' { 2 * w8 } else { w8 + 1 };
                    let (p, q) = if signed { (c.sext(x, ww), c.sext(y, ww)) } else { (c.zext(x, ww), c.zext(y, ww)) };
                    let s = match op {
                        '+' => c.add(p, q),
                        '-' => c.sub(p, q),
                        _ => c.mul(p, q),
                    };
                    if signed {
                        let (lo, hi) = (c.c(min as u64, ww), c.c(max as u64, ww));
                        let (a1, b1) = (c.slt(s, lo), c.slt(hi, s));
                        c.or(a1, b1)
                    } else {
                        let hi = c.c(max as u64, ww);
                        c.ult(hi, s)
                    }
                }
                ('*', false) => {
                    // a > MAX / b
                    let m = c.c(mask(w8), w8);
                    if ny.ulo > 0 {
                        let q = c.udiv(m, y);
                        c.ult(q, x)
                    } else if nx.ulo > 0 {
                        let q = c.udiv(m, x);
                        c.ult(q, y)
                    } else {
                        let z = c.c(0, w8);
                        let one = c.c(1, w8);
                        let e = c.eq(y, z);
                        let d = c.ite(e, one, y);
                        let q = c.udiv(m, d);
                        let g = c.ult(q, x);
                        let ne = c.not(e);
                        c.and(ne, g)
                    }
                }
                ('*', true) => return unsupported("signed 64-bit multiplication with overflow check"),
                _ => {
                    // 64-bit signed: sign rule
                    let z = c.c(0, w8);
                    let (sx, sy, sr) = (c.slt(x, z), c.slt(y, z), c.slt(r, z));
                    let same = c.xor(sx, sy);
                    let cond = if op == '+' { c.not(same) } else { same };
                    let diff = c.xor(sx, sr);
                    c.and(cond, diff)
                }
            }
        };
        Ok(V::A(Rc::new(vec![self.val(r), self.val(ov)])))
    }

    /// applies a scalar operation to each element
    fn map(&mut self, st: &mut State, t: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, &mut State, u32, &V, &V) -> X<V>) -> X<V> {
        if let Ty::Vector(n, e) = t {
            let mut r = vec![];
            for i in 0..*n as usize {
                let (x, y) = (self.elem(a, i)?, self.elem(b, i)?);
                r.push(f(self, st, e.bits() as u32, &x, &y)?);
            }
            Ok(V::A(Rc::new(r)))
        } else {
            f(self, st, t.bits() as u32, a, b)
        }
    }

    /// vector operations of the processor
    fn vector(&mut self, st: &mut State, f: &str, rt: &Ty, args: &[(Ty, Op)], a: &[V]) -> X<V> {
        let n = if let Ty::Vector(..) = rt { rt.count() } else { 0 };
        let mut r = vec![];
        let bytes = |me: &mut Self, st: &mut State, v: &V, i: usize| -> X<Id> {
            let x = me.elem(v, i)?;
            me.ex(st, &x, 8)
        };
        match f {
            "psign" => {
                let w = rt.elem_bits();
                for i in 0..n {
                    let (x, y) = (self.elem(&a[0], i)?, self.elem(&a[1], i)?);
                    let (p, q) = (self.ex(st, &x, w as u32)?, self.ex(st, &y, w as u32)?);
                    let z = self.ctx.c(0, w);
                    let (neg, zero) = (self.ctx.slt(q, z), self.ctx.eq(q, z));
                    let np = self.ctx.neg(p);
                    let v = self.ctx.ite(zero, z, p);
                    let v = self.ctx.ite(neg, np, v);
                    r.push(self.val(v));
                }
            }
            "packusdw" => {
                let m = args[0].0.count();
                for lane in 0..m / 4 {
                    for src in 0..2 {
                        for i in 0..4 {
                            let x = self.elem(&a[src], lane * 4 + i)?;
                            r.push(self.saturate(st, &x, 32, 16, false)?);
                        }
                    }
                }
            }
            "pmadd.ub.sw" => {
                for i in 0..n {
                    let mut sum = self.ctx.c(0, 32);
                    for k in 0..2 {
                        let (x, y) = (bytes(self, st, &a[0], 2 * i + k)?, bytes(self, st, &a[1], 2 * i + k)?);
                        let (x, y) = (self.ctx.zext(x, 32), self.ctx.sext(y, 32));
                        let p = self.ctx.mul(x, y);
                        sum = self.ctx.add(sum, p);
                    }
                    let sum = self.val(sum);
                    r.push(self.saturate(st, &sum, 32, 16, true)?);
                }
            }
            "pmul.hr.sw" => {
                for i in 0..n {
                    let (x, y) = (self.elem(&a[0], i)?, self.elem(&a[1], i)?);
                    let (x, y) = (self.ex(st, &x, 16)?, self.ex(st, &y, 16)?);
                    let (x, y) = (self.ctx.sext(x, 32), self.ctx.sext(y, 32));
                    let p = self.ctx.mul(x, y);
                    let half = self.ctx.c(1 << 14, 32);
                    let p = self.ctx.add(p, half);
                    let v = self.ctx.extract(p, 15, 16);
                    r.push(self.val(v));
                }
            }
            "psll" | "psrl" | "psra" => {
                // the count is the low half of the second operand
                let w = rt.elem_bits();
                let cw = args[1].0.elem_bits() as usize;
                let mut count = 0u64;
                for i in 0..64 / cw {
                    let x = self.elem(&a[1], i)?;
                    count |= self.conc(st, &x)? << (i * cw);
                }
                for i in 0..n {
                    let x = self.elem(&a[0], i)?;
                    let x = self.ex(st, &x, w as u32)?;
                    let v = match f {
                        "psra" => self.ctx.ashr_c(x, count.min(w as u64 - 1) as u8),
                        _ if count >= w as u64 => self.ctx.c(0, w),
                        "psll" => self.ctx.shl_c(x, count as u8),
                        _ => self.ctx.lshr_c(x, count as u8),
                    };
                    r.push(self.val(v));
                }
            }
            "pshuf.b" => {
                for i in 0..n {
                    let k = self.elem(&a[1], i)?;
                    let k = self.conc(st, &k)?;
                    r.push(if k & 0x80 != 0 { V::I(0) } else { self.elem(&a[0], i / 16 * 16 + (k & 15) as usize)? });
                }
            }
            "permd" => {
                for i in 0..n {
                    let k = self.elem(&a[1], i)?;
                    let k = self.conc(st, &k)? & 7;
                    r.push(self.elem(&a[0], k as usize)?);
                }
            }
            "psad.bw" => {
                for i in 0..n {
                    let mut sum = self.ctx.c(0, 64);
                    for k in 0..8 {
                        let (x, y) = (bytes(self, st, &a[0], 8 * i + k)?, bytes(self, st, &a[1], 8 * i + k)?);
                        let (x, y) = (self.ctx.zext(x, 16), self.ctx.zext(y, 16));
                        let d = self.ctx.sub(x, y);
                        let d = self.ctx.abs(d);
                        let d = self.ctx.zext(d, 64);
                        sum = self.ctx.add(sum, d);
                    }
                    r.push(self.val(sum));
                }
            }
            "gather.d.d" => {
                let base = self.conc(st, &a[1])?;
                let scale = self.conc(st, &a[4])?;
                for i in 0..n {
                    let m = self.elem(&a[3], i)?;
                    if self.conc(st, &m)? >> 31 == 0 {
                        r.push(self.elem(&a[0], i)?);
                        continue;
                    }
                    let k = self.elem(&a[2], i)?;
                    let k = sext64(self.conc(st, &k)?, 32) as u64;
                    let (o, off) = self.access(st, &V::I(base.wrapping_add(k.wrapping_mul(scale))), 4, 1, false)?;
                    r.push(self.read_scalar(st, o, off, 32)?);
                }
            }
            "masked.load" | "masked.store" => {
                // arguments: address, mask, other values; or values, address, mask
                let load = f == "masked.load";
                let (p, m) = if load { (&a[0], &a[1]) } else { (&a[1], &a[2]) };
                let t = if load { rt.clone() } else { args[0].0.clone() };
                let base = self.conc(st, p)?;
                let size = t.elem(0).store_size();
                for i in 0..t.count() {
                    let on = self.elem(m, i)?;
                    let on = self.conc(st, &on)? & 1 == 1;
                    if !on {
                        if load {
                            r.push(self.elem(&a[2], i)?);
                        }
                        continue;
                    }
                    let (o, off) = self.access(st, &V::I(base + size * i as u64), size, 1, !load)?;
                    if load {
                        r.push(self.load_at(st, o, off, &t.elem(0))?);
                    } else {
                        let v = self.elem(&a[0], i)?;
                        self.store_at(st, o, off, &t.elem(0), &v)?;
                    }
                }
                if !load {
                    return Ok(V::I(0));
                }
            }
            "cvt.ps2dq" | "cvtps2dq" | "cvtt.ps2dq" | "cvttps2dq" | "round.ps" | "max.ps" | "min.ps" => {
                use crate::fp::{FOp, Round};
                let mode = if f == "round.ps" { self.conc(st, &a[1])? & 15 } else { 0 };
                let kind = match mode {
                    0 | 4 | 8 | 12 => Round::Even,
                    1 | 9 => Round::Floor,
                    2 | 10 => Round::Ceil,
                    _ => Round::Trunc,
                };
                for i in 0..n {
                    let x = self.elem(&a[0], i)?;
                    let x = self.ex(st, &x, 32)?;
                    let c = &mut self.ctx;
                    let v = match f {
                        "round.ps" => c.float(FOp::Round(kind, 32), &[x], 32),
                        "max.ps" | "min.ps" => {
                            let y = self.elem(&a[1], i)?;
                            let y = self.ex(st, &y, 32)?;
                            let o = if f == "min.ps" { [x, y] } else { [y, x] };
                            let l = self.ctx.float(FOp::Lt(32), &o, 1);
                            self.ctx.ite(l, x, y)
                        }
                        _ => {
                            let k = if f.starts_with("cvtt") { Round::Trunc } else { Round::Even };
                            let e = c.float(FOp::Round(k, 32), &[x], 32);
                            let v = c.float(FOp::To(true, 32), &[e], 32);
                            // everything out of range gives the least number
                            let limit = c.c(2147483648f32.to_bits() as u64, 32);
                            let inside = c.float(FOp::Lt(32), &[e, limit], 1);
                            let least = c.c(1 << 31, 32);
                            c.ite(inside, v, least)
                        }
                    };
                    r.push(self.val(v));
                }
            }
            _ => return unsupported(format!("vector operation {}", f)),
        }
        Ok(V::A(Rc::new(r)))
    }

    /// floating-point operations, lane by lane
    fn float(&mut self, st: &mut State, f: &str, rt: &Ty, args: &[(Ty, Op)], a: &[V]) -> X<V> {
        if let Ty::Vector(n, _) = rt {
            let mut r = vec![];
            for i in 0..*n as usize {
                let x = a
                    .iter()
                    .zip(args)
                    .map(|(v, (t, _))| if let Ty::Vector(..) = t { self.elem(v, i) } else { Ok(v.clone()) })
                    .collect::<X<Vec<V>>>()?;
                let t = args.iter().map(|(t, _)| if let Ty::Vector(..) = t { t.elem(i) } else { t.clone() }).collect::<Vec<_>>();
                r.push(self.float_lane(st, f, &rt.elem(i), &t, &x)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let t: Vec<Ty> = args.iter().map(|x| x.0.clone()).collect();
        self.float_lane(st, f, rt, &t, a)
    }

    fn float_lane(&mut self, st: &mut State, f: &str, rt: &Ty, t: &[Ty], a: &[V]) -> X<V> {
        use crate::fp::{FOp, Round};
        let width = |t: &Ty| t.bits();
        if width(rt) > 64 || t.iter().any(|t| width(t) > 64 || *t == Ty::Float(16)) || *rt == Ty::Float(16) {
            return unsupported(format!("floating-point operation {} of these types", f));
        }
        let w = width(rt) as u8;
        // the format
        let fw = match (&t[0], rt) {
            (Ty::Float(n), _) => *n as u8,
            _ => w,
        };
        let mut x = vec![];
        for (v, t) in a.iter().zip(t) {
            x.push(self.ex(st, v, width(t) as u32)?);
        }
        let c = &mut self.ctx;
        let sign = c.c(1u64 << (fw - 1), fw);
        let rest = c.c(mask(fw - 1), fw);
        let r = match f {
            "fadd" => c.float(FOp::Add(fw), &x, w),
            "fsub" => c.float(FOp::Sub(fw), &x, w),
            "fmul" => c.float(FOp::Mul(fw), &x, w),
            "fdiv" => c.float(FOp::Div(fw), &x, w),
            "fneg" => c.xor(x[0], sign),
            "fabs" => c.and(x[0], rest),
            "copysign" => {
                let (p, q) = (c.and(x[0], rest), c.and(x[1], sign));
                c.or(p, q)
            }
            "sqrt" => c.float(FOp::Sqrt(fw), &x[..1], w),
            "fma" | "fmuladd" => c.float(FOp::Fma(fw), &x, w),
            "floor" => c.float(FOp::Round(Round::Floor, fw), &x[..1], w),
            "ceil" => c.float(FOp::Round(Round::Ceil, fw), &x[..1], w),
            "trunc" => c.float(FOp::Round(Round::Trunc, fw), &x[..1], w),
            "round" => c.float(FOp::Round(Round::Away, fw), &x[..1], w),
            "roundeven" | "rint" | "nearbyint" => c.float(FOp::Round(Round::Even, fw), &x[..1], w),
            "sitofp" => c.float(FOp::From(true, w), &x, w),
            "uitofp" => c.float(FOp::From(false, w), &x, w),
            "fptosi" => c.float(FOp::To(true, fw), &x, w),
            "fptoui" => c.float(FOp::To(false, fw), &x, w),
            "fpext" | "fptrunc" => c.float(FOp::Convert(fw), &x, w),
            "minnum" | "maxnum" | "minimum" | "maximum" | "minimumnum" | "maximumnum" => {
                // zeros of different signs: the negative one is less
                let (p, q) = (x[0], x[1]);
                let z = c.c(0, fw);
                let (n0, n1) = (c.float(FOp::NaN(fw), &[p], 1), c.float(FOp::NaN(fw), &[q], 1));
                let lt = c.float(FOp::Lt(fw), &[p, q], 1);
                let same = c.float(FOp::Eq(fw), &[p, q], 1);
                let neg = c.slt(p, z);
                let tie = c.and(same, neg);
                let less = c.or(lt, tie);
                let r = if f.starts_with("min") { c.ite(less, p, q) } else { c.ite(less, q, p) };
                let (r0, r1) = if f.ends_with("mum") { (p, q) } else { (q, p) };
                let r = c.ite(n1, r1, r);
                c.ite(n0, r0, r)
            }
            "cmp.false" => c.c(0, 1),
            "cmp.true" => c.c(1, 1),
            _ if f.starts_with("cmp.") => {
                let (n0, n1) = (c.float(FOp::NaN(fw), &x[..1], 1), c.float(FOp::NaN(fw), &x[1..], 1));
                let nan = c.or(n0, n1);
                let swapped = [x[1], x[0]];
                let p = &f[4..];
                let ordered = match &p[1..] {
                    "eq" => c.float(FOp::Eq(fw), &x, 1),
                    "lt" => c.float(FOp::Lt(fw), &x, 1),
                    "le" => c.float(FOp::Le(fw), &x, 1),
                    "gt" => c.float(FOp::Lt(fw), &swapped, 1),
                    "ge" => c.float(FOp::Le(fw), &swapped, 1),
                    "ne" => {
                        let e = c.float(FOp::Eq(fw), &x, 1);
                        let n = c.not(nan);
                        let d = c.not(e);
                        c.and(d, n)
                    }
                    "rd" => c.not(nan),
                    "no" => nan,
                    _ => return unsupported(format!("floating-point comparison {}", p)),
                };
                if p.starts_with('u') && p != "uno" {
                    c.or(ordered, nan)
                } else {
                    ordered
                }
            }
            _ => {
                // values of functions are only known for known arguments
                let k: Vec<u64> = x.iter().filter_map(|&e| c.cv(e)).collect();
                if k.len() != x.len() {
                    return unsupported(format!("floating-point function {} of an unknown value", f));
                }
                if f == "frem" {
                    c.float(FOp::Rem(fw), &x, w)
                } else {
                    let get = |i: usize| if fw == 32 { f32::from_bits(k[i] as u32) as f64 } else { f64::from_bits(k[i]) };
                    macro_rules! call {
                        ($t:ty) => {{
                            let v = get(0) as $t;
                            match f {
                                "pow" => v.powf(get(1) as $t),
                                "powi" => v.powi(k[1] as i32),
                                "exp" => v.exp(),
                                "exp2" => v.exp2(),
                                "log" => v.ln(),
                                "log2" => v.log2(),
                                "log10" => v.log10(),
                                "sin" => v.sin(),
                                "cos" => v.cos(),
                                "tan" => v.tan(),
                                "cbrt" => v.cbrt(),
                                _ => return unsupported(format!("floating-point function {}", f)),
                            }
                        }};
                    }
                    let v = if fw == 32 { call!(f32).to_bits() as u64 } else { call!(f64).to_bits() };
                    c.c(v, w)
                }
            }
        };
        Ok(self.val(r))
    }

    fn saturate(&mut self, st: &mut State, v: &V, from: u32, to: u32, signed: bool) -> X<V> {
        let e = self.ex(st, v, from)?;
        let (lo, hi) = if signed { (-(1i64 << (to - 1)), (1i64 << (to - 1)) - 1) } else { (0, mask(to as u8) as i64) };
        let c = &mut self.ctx;
        let (l, h) = (c.c(lo as u64, from as u8), c.c(hi as u64, from as u8));
        let t = c.trunc(e, to as u8);
        let (lt, ht) = (c.c(lo as u64, to as u8), c.c(hi as u64, to as u8));
        let (a, b) = (c.slt(e, l), c.slt(h, e));
        let r = c.ite(b, ht, t);
        let r = c.ite(a, lt, r);
        Ok(self.val(r))
    }

    fn new_input(&mut self, st: &mut State, w: u32, signed: bool, lo: u64, hi: u64) -> V {
        let ord = st.inputs.len() as u32;
        if let Some(c) = &self.concrete {
            let v = c.get(ord as usize).copied().unwrap_or(lo) & mask(w as u8);
            st.inputs.push(InRec::Val(v));
            return V::I(v);
        }
        let m = mask(w as u8);
        let k = 64 - ((lo ^ hi) & m).leading_zeros();
        if k > 0 && k < w {
            // only the low bits vary
            let low = mask(k as u8);
            let e = self.ctx.var(VarInfo { ord, w: k as u8, signed: false, lo: lo & low, hi: hi & low, uninit: false });
            if let K::Var(v) = self.ctx.n(e).k {
                let p = self.ctx.c((lo & m) >> k, (w - k) as u8);
                st.inputs.push(InRec::Pre(v, lo & m & !low));
                let e = self.ctx.concat(vec![p, e]);
                return V::E(e);
            }
        }
        let e = self.ctx.var(VarInfo { ord, w: w as u8, signed, lo, hi, uninit: false });
        match self.ctx.n(e).k.clone() {
            K::Var(v) => {
                st.inputs.push(InRec::Var(v));
                V::E(e)
            }
            _ => {
                let v = self.ctx.cv(e).unwrap_or(lo);
                st.inputs.push(InRec::Val(v));
                V::I(v)
            }
        }
    }

    fn builtin(&mut self, st: &mut State, b: &Builtin, rt: &Ty, args: &[(Ty, Op)], a: &[V]) -> X<V> {
        match b {
            Builtin::Nop => Ok(a.first().cloned().unwrap_or(V::I(0))),
            Builtin::Zero => Ok(V::I(0)),
            Builtin::Trap => {
                self.violation(st, "panic", 0, "abort", None);
                Err(Stop::Violation)
            }
            Builtin::Alloc | Builtin::AllocZeroed => {
                let size = self.conc(st, &a[0])?;
                let align = self.conc(st, &a[1])?;
                if size > 1 << 30 {
                    return unsupported("huge allocation");
                }
                Ok(V::I(self.alloc(st, size, align, Kind::Heap, *b == Builtin::AllocZeroed)))
            }
            Builtin::Dealloc => {
                let p = self.conc(st, &a[0])?;
                self.dealloc(st, p)?;
                Ok(V::I(0))
            }
            Builtin::Realloc => {
                let p = self.conc(st, &a[0])?;
                let old = self.conc(st, &a[1])?;
                let align = self.conc(st, &a[2])?;
                let new = self.conc(st, &a[3])?;
                let q = self.alloc(st, new, align, Kind::Heap, false);
                self.copy(st, &V::I(q), &V::I(p), old.min(new))?;
                self.dealloc(st, p)?;
                Ok(V::I(q))
            }
            Builtin::GrowOneU8 => {
                // {capacity, pointer}
                let p = self.conc(st, &a[0])?;
                let (o, off) = self.access(st, &V::I(p), 16, 8, true)?;
                let cap = self.read_scalar(st, o, off, 64)?;
                let cap = self.conc(st, &cap)?;
                let old = self.read_scalar(st, o, off + 8, 64)?;
                let old = self.conc(st, &old)?;
                let new = (cap * 2).max(8);
                let q = self.alloc(st, new, 1, Kind::Heap, false);
                if cap > 0 {
                    self.copy(st, &V::I(q), &V::I(old), cap)?;
                    self.dealloc(st, old)?;
                }
                self.write_scalar(st, o, off, 64, &V::I(new))?;
                self.write_scalar(st, o, off + 8, 64, &V::I(q))?;
                Ok(V::I(0))
            }
            Builtin::MemCpy => {
                let n = self.conc(st, &a[2])?;
                self.copy(st, &a[0], &a[1], n)?;
                Ok(a[0].clone())
            }
            Builtin::MemSet => {
                let n = self.conc(st, &a[2])?;
                if n == 0 {
                    return Ok(a[0].clone());
                }
                let (o, off) = self.access(st, &a[0], n, 1, true)?;
                let n = n as usize;
                let t = &args[1].0;
                let v = self.cast(st, if t.bits() > 8 { CastOp::Trunc } else { CastOp::ZExt }, t, &a[1], &Ty::Int(8))?;
                match v {
                    V::I(x) => {
                        let ob = Rc::make_mut(st.mem[o].as_mut().unwrap());
                        ob.data[off..off + n].fill(x as u8);
                        if !ob.cells.is_empty() {
                            ob.cells[off..off + n].fill(NOCELL);
                        }
                        if !ob.init.is_empty() {
                            ob.init[off..off + n].fill(1);
                        }
                    }
                    v => {
                        for i in 0..n {
                            self.write_scalar(st, o, off + i, 8, &v)?;
                        }
                    }
                }
                Ok(a[0].clone())
            }
            Builtin::MemCmp | Builtin::BCmp => {
                let n = self.conc(st, &a[2])?;
                if n == 0 {
                    return Ok(V::I(0));
                }
                let (o1, f1) = self.access(st, &a[0], n, 1, false)?;
                let (o2, f2) = self.access(st, &a[1], n, 1, false)?;
                let mut pairs = vec![];
                let mut rest = None;
                for i in 0..n as usize {
                    let x = self.read_scalar(st, o1, f1 + i, 8)?;
                    let y = self.read_scalar(st, o2, f2 + i, 8)?;
                    if let (V::I(p), V::I(q)) = (&x, &y) {
                        if p != q {
                            // what follows does not matter, and to the other function nothing else does
                            rest = Some(p < q);
                            if *b == Builtin::BCmp {
                                pairs.clear();
                            }
                            break;
                        }
                        continue;
                    }
                    pairs.push((self.ex(st, &x, 8)?, self.ex(st, &y, 8)?));
                }
                let mut r = self.ctx.c(rest.map_or(0, |l| if l { u64::MAX } else { 1 }), 32);
                let (less, greater) = (self.ctx.c(u64::MAX, 32), self.ctx.c(1, 32));
                for &(p, q) in pairs.iter().rev() {
                    let e = self.ctx.eq(p, q);
                    let d = if *b == Builtin::BCmp {
                        greater
                    } else {
                        let l = self.ctx.ult(p, q);
                        self.ctx.ite(l, less, greater)
                    };
                    r = self.ctx.ite(e, r, d);
                }
                Ok(self.val(r))
            }
            Builtin::Detect => {
                // a set of processor features: all or none
                let v = if st.avx2 { u64::MAX } else { 0 };
                let n = ((rt.bits() + 63) / 64).max(1);
                if n == 1 {
                    Ok(V::I(v & mask(rt.bits().min(64) as u8)))
                } else {
                    Ok(V::A(Rc::new(vec![V::I(v); n as usize])))
                }
            }
            Builtin::Overflow(op, s, w) => self.overflow(st, *op, *s, *w, &a[0], &a[1]),
            Builtin::MinMax(k, _) => {
                let k = k.clone();
                self.map(st, rt, &a[0], &a[1], &mut |me, st, w, x, y| {
                    if let (V::I(p), V::I(q)) = (x, y) {
                        let less = if k.starts_with('s') { sext64(*p, w as u8) < sext64(*q, w as u8) } else { p < q };
                        return Ok(V::I(if less == k.ends_with("min") { *p } else { *q }));
                    }
                    let (p, q) = (me.ex(st, x, w)?, me.ex(st, y, w)?);
                    let l = if k.starts_with('s') { me.ctx.slt(p, q) } else { me.ctx.ult(p, q) };
                    let r = if k.ends_with("min") { me.ctx.ite(l, p, q) } else { me.ctx.ite(l, q, p) };
                    Ok(me.val(r))
                })
            }
            Builtin::Abs => self.map(st, rt, &a[0], &a[0], &mut |me, st, w, x, _| {
                let e = me.ex(st, x, w)?;
                let r = me.ctx.abs(e);
                Ok(me.val(r))
            }),
            Builtin::Ctlz | Builtin::Cttz => {
                if let Ty::Vector(..) = rt {
                    return unsupported("vector bit count");
                }
                let w = rt.bits() as u32;
                let lead = *b == Builtin::Ctlz;
                match &a[0] {
                    V::I(x) => Ok(V::I(if lead {
                        if *x == 0 {
                            w as u64
                        } else {
                            (x.leading_zeros() - (64 - w)) as u64
                        }
                    } else if *x == 0 {
                        w as u64
                    } else {
                        x.trailing_zeros() as u64
                    })),
                    v => {
                        if let Some(c) = st.choice.take() {
                            return Ok(V::I(c));
                        }
                        let e = self.ex(st, v, w)?;
                        let mut alts = vec![];
                        for r in 0..=w {
                            let c = if r == w {
                                let z = self.ctx.c(0, w as u8);
                                self.ctx.eq(e, z)
                            } else if lead {
                                // the top r bits are zero, the next is one
                                let lo = self.ctx.c(1u64 << (w - 1 - r), w as u8);
                                let hi = self.ctx.c(mask((w - r) as u8), w as u8);
                                let (p, q) = (self.ctx.ule(lo, e), self.ctx.ule(e, hi));
                                self.ctx.and(p, q)
                            } else {
                                let x = self.ctx.extract(e, 0, (r + 1) as u8);
                                let k = self.ctx.c(1u64 << r, (r + 1) as u8);
                                self.ctx.eq(x, k)
                            };
                            if self.ctx.cv(c) != Some(0) {
                                alts.push((c, r as u64));
                            }
                        }
                        let r = self.choose_path(st, alts, |s, t| s.choice = Some(*t))?;
                        Ok(V::I(r))
                    }
                }
            }
            Builtin::Ctpop if matches!(rt, Ty::Vector(..)) => unsupported("vector bit count"),
            Builtin::Ctpop => match &a[0] {
                V::I(x) => Ok(V::I(x.count_ones() as u64)),
                v => {
                    let w = rt.bits() as u32;
                    if w > 64 {
                        return unsupported("wide bit count");
                    }
                    let e = self.ex(st, v, w)?;
                    let mut sum = self.ctx.c(0, w as u8);
                    for i in 0..w {
                        let x = self.ctx.extract(e, i as u8, 1);
                        let x = self.ctx.zext(x, w as u8);
                        sum = self.ctx.add(sum, x);
                    }
                    Ok(self.val(sum))
                }
            },
            Builtin::Bswap => {
                let t = rt.clone();
                self.map(st, &t, &a[0], &a[0], &mut |me, st, w, x, _| {
                    if let V::I(p) = x {
                        return Ok(V::I(p.swap_bytes() >> (64 - w)));
                    }
                    let e = me.ex(st, x, w)?;
                    let mut p = vec![];
                    for i in 0..w / 8 {
                        p.push(me.ctx.extract(e, (8 * i) as u8, 8));
                    }
                    let r = me.ctx.concat(p);
                    Ok(me.val(r))
                })
            }
            Builtin::FShift(left, w) => {
                if rt.bits() > 64 {
                    return unsupported("wide funnel shift");
                }
                let s = self.conc(st, &a[2])? % *w as u64;
                let s = if *left { s } else { (*w as u64 - s) % *w as u64 };
                let right_zero = !*left && s == 0;
                if s == 0 {
                    return Ok(if right_zero { a[1].clone() } else { a[0].clone() });
                }
                let (x, y) = (self.ex(st, &a[0], *w)?, self.ex(st, &a[1], *w)?);
                let hi = self.ctx.extract(x, 0, (*w as u64 - s) as u8);
                let lo = self.ctx.extract(y, (*w as u64 - s) as u8, s as u8);
                let r = self.ctx.concat(vec![hi, lo]);
                Ok(self.val(r))
            }
            Builtin::Sat(op, s, _) => {
                let (op, s) = (*op, *s);
                self.map(st, rt, &a[0], &a[1], &mut |me, st, w, x, y| {
                    let r = me.overflow(st, op, s, w, x, y)?;
                    let (v, o) = (me.elem(&r, 0)?, me.elem(&r, 1)?);
                    let (ve, oe) = (me.ex(st, &v, w)?, me.ex(st, &o, 1)?);
                    let sat = if !s {
                        me.ctx.c(if op == '+' { u64::MAX } else { 0 }, w as u8)
                    } else {
                        let xe = me.ex(st, x, w)?;
                        let z = me.ctx.c(0, w as u8);
                        let neg = me.ctx.slt(xe, z);
                        let (mn, mx) = (me.ctx.c(1u64 << (w - 1), w as u8), me.ctx.c(mask(w as u8 - 1), w as u8));
                        me.ctx.ite(neg, mn, mx)
                    };
                    let r = me.ctx.ite(oe, sat, ve);
                    Ok(me.val(r))
                })
            }
            Builtin::Cmp3(signed) => {
                let signed = *signed;
                let ow = rt.elem_bits();
                let t = args[0].0.clone();
                self.map(st, &t, &a[0], &a[1], &mut |me, st, w, x, y| {
                    let (p, q) = (me.ex(st, x, w)?, me.ex(st, y, w)?);
                    let (l, g) = if signed { (me.ctx.slt(p, q), me.ctx.slt(q, p)) } else { (me.ctx.ult(p, q), me.ctx.ult(q, p)) };
                    let (m1, z, o) = (me.ctx.c(u64::MAX, ow), me.ctx.c(0, ow), me.ctx.c(1, ow));
                    let r = me.ctx.ite(g, o, z);
                    let r = me.ctx.ite(l, m1, r);
                    Ok(me.val(r))
                })
            }
            Builtin::X86(f) => self.vector(st, f, rt, args, a),
            Builtin::F(f) => self.float(st, f, rt, args, a),
            Builtin::PmaddWd => {
                let n = rt.count();
                let mut r = vec![];
                for i in 0..n {
                    let mut sum = self.ctx.c(0, 32);
                    for k in 0..2 {
                        let (x, y) = (self.elem(&a[0], 2 * i + k)?, self.elem(&a[1], 2 * i + k)?);
                        let (x, y) = (self.ex(st, &x, 16)?, self.ex(st, &y, 16)?);
                        let (x, y) = (self.ctx.sext(x, 32), self.ctx.sext(y, 32));
                        let p = self.ctx.mul(x, y);
                        sum = self.ctx.add(sum, p);
                    }
                    r.push(self.val(sum));
                }
                Ok(V::A(Rc::new(r)))
            }
            Builtin::PsignW => self.map(st, rt, &a[0], &a[1], &mut |me, st, w, x, y| {
                let (p, q) = (me.ex(st, x, w)?, me.ex(st, y, w)?);
                let z = me.ctx.c(0, w as u8);
                let (neg, zero) = (me.ctx.slt(q, z), me.ctx.eq(q, z));
                let np = me.ctx.neg(p);
                let r = me.ctx.ite(zero, z, p);
                let r = me.ctx.ite(neg, np, r);
                Ok(me.val(r))
            }),
            Builtin::PackSsDw | Builtin::PackSsWb | Builtin::PackUsWb => {
                let from = if *b == Builtin::PackSsDw { 32 } else { 16 };
                let per = 128 / from as usize;
                let n = args[0].0.count();
                let mut r = vec![];
                for lane in 0..n / per {
                    for src in 0..2 {
                        for i in 0..per {
                            let x = self.elem(&a[src], lane * per + i)?;
                            r.push(self.saturate(st, &x, from, from / 2, *b != Builtin::PackUsWb)?);
                        }
                    }
                }
                Ok(V::A(Rc::new(r)))
            }
            Builtin::Pmulh(signed) => {
                let signed = *signed;
                self.map(st, rt, &a[0], &a[1], &mut |me, st, w, x, y| {
                    let (p, q) = (me.ex(st, x, w)?, me.ex(st, y, w)?);
                    let (p, q) =
                        if signed { (me.ctx.sext(p, 32), me.ctx.sext(q, 32)) } else { (me.ctx.zext(p, 32), me.ctx.zext(q, 32)) };
                    let m = me.ctx.mul(p, q);
                    let r = me.ctx.extract(m, 16, 16);
                    Ok(me.val(r))
                })
            }
            Builtin::SymU | Builtin::SymI => {
                let w = self.conc(st, &a[0])? as u32;
                let lo = self.conc(st, &a[1])?;
                let hi = self.conc(st, &a[2])?;
                let signed = *b == Builtin::SymI;
                let v = self.new_input(st, w, signed, lo, hi);
                self.cast(st, if signed { CastOp::SExt } else { CastOp::ZExt }, &Ty::Int(w), &v, &Ty::Int(64))
            }
            Builtin::SymBytes => {
                let n = self.conc(st, &a[1])?;
                let lo = self.conc(st, &a[2])?;
                let hi = self.conc(st, &a[3])?;
                if n > 0 {
                    let (o, off) = self.access(st, &a[0], n, 1, true)?;
                    for i in 0..n as usize {
                        let v = self.new_input(st, 8, false, lo, hi);
                        self.write_scalar(st, o, off + i, 8, &v)?;
                    }
                }
                Ok(V::I(0))
            }
            Builtin::Choose => {
                let n = self.conc(st, &a[0])?;
                if let Some(c) = st.choice.take() {
                    return Ok(V::I(c));
                }
                let ord = st.inputs.len();
                if let Some(c) = &self.concrete {
                    let v = c.get(ord).copied().unwrap_or(0);
                    st.inputs.push(InRec::Val(v));
                    return Ok(V::I(v));
                }
                for i in (1..n).rev() {
                    let mut s = st.clone();
                    s.inputs.push(InRec::Val(i));
                    s.choice = Some(i);
                    self.report.forks += 1;
                    self.work.push(s);
                }
                st.inputs.push(InRec::Val(0));
                Ok(V::I(0))
            }
            Builtin::Concretize => {
                let v = self.conc(st, &a[0])?;
                Ok(V::I(v))
            }
            Builtin::Assume => {
                let t = &args[0].0;
                let c = self.truth(st, &a[0], t)?;
                match self.known(st, c) {
                    Some(true) => return Ok(V::I(0)),
                    Some(false) => {
                        return Err(Stop::Pruned);
                    }
                    None => {}
                }
                match self.feasible(st, c)? {
                    Some(m) => {
                        st.model = m;
                        self.add(st, c);
                        Ok(V::I(0))
                    }
                    None => {
                        Err(Stop::Pruned)
                    }
                }
            }
            Builtin::Check => {
                let t = &args[0].0;
                let id = self.conc(st, &a[1])?;
                self.report.checks += 1;
                let before = self.solver.stats.queries + self.solver.stats.cached;
                let c = self.truth(st, &a[0], t)?;
                let r = self.require(st, c, "check", id, &format!("check {} fails", id));
                if self.solver.stats.queries + self.solver.stats.cached == before {
                    self.report.checks_simplified += 1;
                } else {
                    self.report.checks_solver += 1;
                }
                r?;
                Ok(V::I(0))
            }
            Builtin::CheckLinear => {
                let lo = self.conc(st, &a[1])? as i64;
                let hi = self.conc(st, &a[2])? as i64;
                let id = self.conc(st, &a[3])?;
                self.report.checks += 1;
                self.report.checks_linear += 1;
                let e = self.ex(st, &a[0], 64)?;
                if std::env::var("SYMEX_LINEAR").is_ok() {
                    let f = self.ctx.form(e, true);
                    let (l, h) = self.ctx.form_range(&f);
                    eprintln!("linear check {}: {}..={} in {}..={}", self.report.checks, l, h, lo, hi);
                }
                if self.ctx.cv(e).is_none() && st.path.is_empty() {
                    match self.solver.prove_linear(&mut self.ctx, e, lo, hi) {
                        None => return Ok(V::I(0)),
                        Some(w) => {
                            let m = self.overlay(st, &w);
                            let mut s2 = st.clone();
                            s2.model = m.clone();
                            let v = self.eval(&s2, e) as i64;
                            if std::env::var("SYMEX_LINEAR").is_ok() {
                                eprintln!("candidate {}", v);
                            }
                            if v < lo || v > hi {
                                self.violation(st, "check", id, &format!("check {}: value {} not in {}..={}", id, v, lo, hi), Some(&m));
                                return Err(Stop::Violation);
                            }
                        }
                    }
                }
                let (l, h) = (self.ctx.c(lo as u64, 64), self.ctx.c(hi as u64, 64));
                let (p, q) = (self.ctx.sle(l, e), self.ctx.sle(e, h));
                let c = self.ctx.and(p, q);
                self.require(st, c, "check", id, &format!("check {} fails", id))?;
                Ok(V::I(0))
            }
            Builtin::Reach => {
                let id = self.conc(st, &a[0])?;
                *self.report.reached.entry(id).or_insert(0) += 1;
                Ok(V::I(0))
            }
            Builtin::Param => {
                let i = self.conc(st, &a[0])? as usize;
                match self.params.get(i) {
                    Some(v) => Ok(V::I(*v)),
                    None => unsupported("missing parameter"),
                }
            }
            Builtin::Avx2 => {
                st.avx2 = self.conc(st, &a[0])? != 0;
                Ok(V::I(0))
            }
            Builtin::ExpectPanic => {
                st.expect_panic = self.conc(st, &a[0])? != 0;
                Ok(V::I(0))
            }
            Builtin::Forget => {
                for (i, o) in self.prog.objs.iter().enumerate() {
                    if matches!(o, Some(o) if matches!(o.kind, Kind::Global)) {
                        st.mem[i] = o.clone();
                    }
                }
                Ok(V::I(0))
            }
            Builtin::Out => {
                let n = self.conc(st, &a[1])?;
                if n > 0 {
                    let (o, off) = self.access(st, &a[0], n, 1, false)?;
                    for i in 0..n as usize {
                        let v = self.read_scalar(st, o, off + i, 8)?;
                        st.out.push(v);
                    }
                }
                Ok(V::I(0))
            }
            Builtin::Slice => {
                // memory of which only the length matters
                let id = st.mem.len();
                let base = obj_base(id, 4096);
                st.mem.push(Some(Rc::new(Obj {
                    name: "virtual".into(),
                    base,
                    size: 1 << 35,
                    align: 4096,
                    kind: Kind::Virtual,
                    alive: true,
                    data: vec![],
                    cells: vec![],
                    init: vec![],
                })));
                Ok(V::I(base))
            }
            Builtin::Window => {
                // zeros, of which a part may be changed
                let (len, from, kept) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                if len > 1 << 35 || from > len || kept > len - from {
                    return unsupported("window too large");
                }
                let id = st.mem.len();
                let base = obj_base(id, 4096);
                st.mem.push(Some(Rc::new(Obj {
                    name: "window".into(),
                    base,
                    size: len,
                    align: 4096,
                    kind: Kind::Window(from),
                    alive: true,
                    data: vec![0; (ZEROS + kept) as usize],
                    cells: vec![],
                    init: vec![],
                })));
                Ok(V::I(base))
            }
            Builtin::IsSymbolic => Ok(V::I(matches!(a[0], V::E(_)) as u64)),
        }
    }

    fn truth(&mut self, st: &mut State, v: &V, t: &Ty) -> X<Id> {
        let w = t.bits() as u32;
        let e = self.ex(st, v, w)?;
        if w == 1 {
            return Ok(e);
        }
        let z = self.ctx.c(0, w as u8);
        let q = self.ctx.eq(e, z);
        Ok(self.ctx.not(q))
    }

    fn dealloc(&mut self, st: &mut State, p: u64) -> X<()> {
        let o = match self.find(st, p) {
            Some(o) => o,
            None => {
                self.violation(st, "memory", 0, "free of an address that was not allocated", None);
                return Err(Stop::Violation);
            }
        };
        let ob = st.mem[o].as_ref().unwrap();
        if !ob.alive || ob.kind != Kind::Heap || ob.base != p {
            self.violation(st, "memory", 0, "invalid or double free", None);
            return Err(Stop::Violation);
        }
        let mut n = (**ob).clone_header();
        n.alive = false;
        st.mem[o] = Some(Rc::new(n));
        Ok(())
    }
}

impl Obj {
    fn clone_header(&self) -> Obj {
        Obj {
            name: self.name.clone(),
            base: self.base,
            size: self.size,
            align: self.align,
            kind: self.kind,
            alive: self.alive,
            data: vec![],
            cells: vec![],
            init: vec![],
        }
    }
}

impl Ty {
    fn elem_bits(&self) -> u8 {
        match self {
            Ty::Vector(_, e) => e.bits() as u8,
            t => t.bits() as u8,
        }
    }
}
