//! Symbolic execution of one harness over all feasible paths.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::parse::{func_addr, runtime_fn, Module, FUNC_SLOT};
use crate::solv::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone)]
struct Frame {
    f: Arc<Func>,
    pc: u32,
    regs: Vec<Val>,
    allocas: Vec<u64>,
    is_try: bool,
}

/// how a symbolic decision went: 0 branch side, 1 value, 2 excluded value, 3 switch arm, 4 excluded arm
pub type Dec = (u8, u64);

struct LogNode {
    d: Dec,
    prev: Option<Rc<LogNode>>,
}
impl Drop for LogNode {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(n) = p {
            match Rc::try_unwrap(n) {
                Ok(mut x) => p = x.prev.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone)]
struct State {
    cur: Frame,
    stack: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Vec<E>,
    conc: Rc<FxMap<E, u64>>,
    model: Model,
    log: Option<Rc<LogNode>>,
    forced: Option<Dec>,
    syms: Vec<(u8, Val)>,
    evts: Rc<Vec<Val>>,
    nsym: u32,
    steps: u64,
    replay: Option<Rc<Vec<Dec>>>,
    rpos: usize,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub syms: Vec<i64>,
    pub trace: Vec<String>,
}

#[derive(Default)]
pub struct Out {
    pub paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_const: u64,
    pub covers: BTreeMap<u64, u64>,
    pub funcs: Vec<bool>,
    pub violations: Vec<Violation>,
    /// values and observable trace of some completed paths, for native cross-checking
    pub samples: Vec<(Vec<i64>, u64)>,
    pub errors: Vec<String>,
    pub st: Stats,
    pub maxsyms: usize,
    pub donated: u64,
    pub widest: String,
}

pub struct Limits {
    pub steps: u64,
    pub deadline: Instant,
    pub max_viol: usize,
}

pub trait Donor {
    /// somebody is idle
    fn wanted(&self) -> bool;
    fn give(&self, prefix: Vec<Dec>);
    fn stop(&self) -> bool;
}

pub struct Exec<'m> {
    m: &'m Module,
    c: Ctx,
    s: Solver,
    funcs: Vec<Option<Arc<Func>>>,
    params: Vec<i64>,
    work: std::collections::VecDeque<State>,
    pub out: Out,
    lim: Limits,
    donor: &'m dyn Donor,
    ticks: u32,
    trace: bool,
}

enum Flow {
    Next,
    Jump(u32),
    /// control already moved
    Stay,
    Done,
}

enum Stop {
    E(Err),
    Infeasible,
    Panic(String),
}
impl From<Err> for Stop {
    fn from(e: Err) -> Stop {
        Stop::E(e)
    }
}
impl From<Unsup> for Stop {
    fn from(e: Unsup) -> Stop {
        Stop::E(Err::Unsup(e.0))
    }
}
type R<T> = Result<T, Stop>;
fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::E(Err::Unsup(s.into())))
}
fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::E(Err::Bad(s.into())))
}

const MAXCONC: usize = 96;

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, params: Vec<i64>, lim: Limits, donor: &'m dyn Donor) -> Exec<'m> {
        Exec {
            m,
            c: Ctx::new(),
            s: Solver::new(),
            funcs: vec![None; m.nfuncs()],
            params,
            work: Default::default(),
            out: Out { funcs: vec![false; m.nfuncs()], ..Default::default() },
            lim,
            donor,
            ticks: 0,
            trace: std::env::var("SYMEX_TRACE").is_ok(),
        }
    }
    pub fn set_dump(&mut self, d: Option<(std::path::PathBuf, u64)>) {
        self.s.dump = d;
    }
    fn func(&mut self, id: u32) -> R<Arc<Func>> {
        if let Some(f) = &self.funcs[id as usize] {
            return Ok(f.clone());
        }
        match self.m.func(id) {
            Ok(f) => {
                self.funcs[id as usize] = Some(f.clone());
                self.out.funcs[id as usize] = true;
                Ok(f)
            }
            Err(e) => unsup(format!("parse {}: {}", self.m.func_name(id).1, e)),
        }
    }

    pub fn run(&mut self, harness: &str, prefix: Vec<Dec>) {
        let id = match self.m.func_id(harness) {
            Some(i) => i,
            None => {
                self.out.errors.push(format!("no harness {}", harness));
                return;
            }
        };
        let f = match self.func(id) {
            Ok(f) => f,
            Err(Stop::E(Err::Unsup(s))) => {
                self.out.errors.push(s);
                return;
            }
            _ => return,
        };
        let stamp = self.s.next_stamp();
        let st = State {
            cur: Frame { regs: vec![Val::I(0); f.nregs as usize], f, pc: 0, allocas: vec![], is_try: false },
            stack: vec![],
            mem: Mem::new(self.m),
            pc: vec![],
            conc: Default::default(),
            model: Model { v: Rc::new(vec![]), stamp },
            log: None,
            forced: None,
            syms: vec![],
            evts: Default::default(),
            nsym: 0,
            steps: 0,
            replay: if prefix.is_empty() { None } else { Some(Rc::new(prefix)) },
            rpos: 0,
        };
        self.work.push_back(st);
        while let Some(st) = self.work.pop_back() {
            if self.out.violations.len() >= self.lim.max_viol || self.out.errors.len() >= 3 || self.donor.stop() {
                break;
            }
            if Instant::now() > self.lim.deadline {
                self.out.errors.push("time limit".into());
                break;
            }
            self.path(st);
        }
        self.out.st = self.s.st.clone();
    }

    fn path(&mut self, mut st: State) {
        let r = loop {
            match self.step(&mut st) {
                Ok(Flow::Next) => st.cur.pc += 1,
                Ok(Flow::Jump(e)) => {
                    if let Err(s) = self.jump(&mut st, e) {
                        break Err(s);
                    }
                }
                Ok(Flow::Stay) => {}
                Ok(Flow::Done) => break Ok(()),
                Err(s) => break Err(s),
            }
        };
        self.out.steps += st.steps;
        self.out.maxsyms = self.out.maxsyms.max(st.syms.len());
        match r {
            Ok(()) => {
                self.out.paths += 1;
                self.sample(&st);
            }
            Err(Stop::Infeasible) => self.out.infeasible += 1,
            Err(Stop::Panic(s)) => {
                self.out.paths += 1;
                self.violation(&st, "panic", s, None)
            }
            Err(Stop::E(Err::Bad(s))) => {
                self.out.paths += 1;
                self.violation(&st, "memory", s, None)
            }
            Err(Stop::E(Err::Unsup(s))) => {
                let t = self.backtrace(&st);
                let s = format!("{} in {}", s, t.iter().take(4).cloned().collect::<Vec<_>>().join(" < "));
                if !self.out.errors.contains(&s) {
                    self.out.errors.push(s);
                }
            }
        }
    }

    fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v = vec![st.cur.f.pretty.to_string()];
        for f in st.stack.iter().rev() {
            v.push(f.f.pretty.to_string());
        }
        v
    }
    fn values<'a>(&mut self, it: impl Iterator<Item = &'a Val>, model: &Model) -> Vec<i64> {
        it.map(|v| match v {
            Val::I(x) => *x as i64,
            Val::S(e) => {
                let w = self.c.w(*e);
                sx(self.c.eval(*e, &model.v, model.stamp) as u64, w)
            }
            _ => 0,
        })
        .collect()
    }
    fn sample(&mut self, st: &State) {
        let n = self.out.paths;
        if !(n.is_power_of_two() || n % 997 == 0) || self.out.samples.len() >= 24 {
            return;
        }
        let model = st.model.clone();
        let syms = self.values(st.syms.iter().map(|x| &x.1), &model);
        let ev = self.values(st.evts.iter(), &model);
        let mut h = 0u64;
        for x in ev {
            h = h.wrapping_mul(0x100000001b3).wrapping_add(x as u64 ^ 0x9e37);
        }
        self.out.samples.push((syms, h));
    }
    fn violation(&mut self, st: &State, kind: &str, msg: String, model: Option<&Model>) {
        let model = model.unwrap_or(&st.model).clone();
        let syms = self.values(st.syms.iter().map(|x| &x.1), &model);
        let trace = self.backtrace(st);
        self.out.violations.push(Violation { kind: kind.into(), msg, syms, trace });
    }

    // ---- values ----
    #[inline]
    fn op(&mut self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => st.cur.regs[*r as usize].clone(),
            Opnd::C(k) => Val::I(*k),
            Opnd::W(v, w) => Val::S(self.c.cst128(*v, *w)),
            Opnd::Undef(w) => Val::S(self.c.undef(*w)),
            Opnd::Agg(a) => Val::A(Rc::new(a.iter().map(|x| self.op(st, x)).collect())),
        }
    }
    fn e(&mut self, v: &Val, w: u32) -> R<E> {
        match v {
            Val::I(k) => Ok(self.c.cst128(*k as u128, w)),
            Val::S(e) => {
                if self.c.w(*e) != w {
                    return unsup(format!("width mismatch {} {}", self.c.w(*e), w));
                }
                Ok(*e)
            }
            Val::A(_) => unsup("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        mkval(&self.c, e)
    }

    // ---- decisions ----
    fn add_pc(&mut self, st: &mut State, e: E) {
        let n = self.c.n[e as usize];
        match n.o {
            O::Const => {}
            O::And => {
                self.add_pc(st, n.a);
                self.add_pc(st, n.b);
            }
            O::Not if self.c.n[n.a as usize].o == O::Or => {
                let q = self.c.n[n.a as usize];
                let (x, y) = (self.c.not(q.a), self.c.not(q.b));
                self.add_pc(st, x);
                self.add_pc(st, y);
            }
            _ => {
                if !st.pc.contains(&e) {
                    st.pc.push(e);
                }
            }
        }
    }
    fn log(st: &mut State, d: Dec) {
        st.log = Some(Rc::new(LogNode { d, prev: st.log.take() }));
    }
    fn next_replay(&mut self, st: &mut State) -> Option<Dec> {
        let r = st.replay.as_ref()?;
        if st.rpos < r.len() {
            let d = r[st.rpos];
            st.rpos += 1;
            return Some(d);
        }
        None
    }
    /// after the last replayed decision: find a model
    fn after_replay(&mut self, st: &mut State) -> R<()> {
        let done = match &st.replay {
            Some(r) => st.rpos == r.len(),
            None => return Ok(()),
        };
        if done {
            st.replay = None;
            let pc = st.pc.clone();
            match self.s.check(&mut self.c, &[], &pc, &st.model)? {
                Ans::Sat(m) => st.model = m,
                Ans::Unsat => return unsup("internal: replayed prefix infeasible"),
                Ans::Unknown => return unsup("solver timeout"),
            }
        }
        Ok(())
    }
    fn push(&mut self, st: State) {
        self.out.forks += 1;
        self.work.push_back(st);
        self.ticks += 1;
        if self.ticks % 8 == 0 && self.work.len() > 1 && self.donor.wanted() {
            if let Some(s) = self.work.pop_front() {
                if s.replay.is_some() {
                    self.work.push_front(s);
                    return;
                }
                let mut v = Vec::new();
                if let Some(d) = s.forced {
                    v.push(d);
                }
                let mut l = s.log.as_ref();
                while let Some(n) = l {
                    v.push(n.d);
                    l = n.prev.as_ref();
                }
                v.reverse();
                self.out.donated += 1;
                self.donor.give(v);
            }
        }
    }
    fn defined(&self, e: E, what: &str) -> R<()> {
        if self.c.n[e as usize].undef {
            return bad(format!("{} depends on uninitialised memory", what));
        }
        Ok(())
    }

    /// Take one side of a condition; the other is queued if feasible.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.c.kst(c) {
            return Ok(k == 1);
        }
        self.defined(c, "a branch")?;
        let nc = self.c.not(c);
        if let Some(d) = self.next_replay(st) {
            if d.0 != 0 {
                return unsup("internal: replay out of step (branch)");
            }
            let side = d.1 == 1;
            self.add_pc(st, if side { c } else { nc });
            Self::log(st, d);
            self.after_replay(st)?;
            return Ok(side);
        }
        if let Some(d) = st.forced.take() {
            Self::log(st, d);
            return Ok(d.1 == 1);
        }
        if st.pc.contains(&c) {
            Self::log(st, (0, 1));
            return Ok(true);
        }
        if st.pc.contains(&nc) {
            Self::log(st, (0, 0));
            return Ok(false);
        }
        let side = self.c.eval(c, &st.model.v, st.model.stamp) == 1;
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        match self.s.check(&mut self.c, &st.pc, &[other], &st.model)? {
            Ans::Sat(m) => {
                let mut o = st.clone();
                self.add_pc(&mut o, other);
                o.model = m;
                o.forced = Some((0, !side as u64));
                self.push(o);
                self.add_pc(st, mine);
            }
            Ans::Unsat => {}
            Ans::Unknown => return unsup("solver timeout"),
        }
        Self::log(st, (0, side as u64));
        Ok(side)
    }

    /// Split on the value of an expression.
    fn concretize(&mut self, st: &mut State, e: E) -> R<u64> {
        if let Some(k) = self.c.kst(e) {
            return Ok(k);
        }
        self.defined(e, "an address or size")?;
        if let Some(k) = st.conc.get(&e) {
            return Ok(*k);
        }
        let w = self.c.w(e);
        if w > 64 {
            return unsup("wide value made concrete");
        }
        while let Some(d) = self.next_replay(st) {
            let k = self.c.cst(d.1, w);
            let q = self.c.eq(e, k);
            Self::log(st, d);
            match d.0 {
                1 => {
                    self.add_pc(st, q);
                    Rc::make_mut(&mut st.conc).insert(e, d.1);
                    self.after_replay(st)?;
                    return Ok(d.1);
                }
                2 => {
                    let nq = self.c.not(q);
                    self.add_pc(st, nq);
                    self.after_replay(st)?;
                }
                _ => return unsup("internal: replay out of step (value)"),
            }
        }
        if let Some(d) = st.forced.take() {
            Self::log(st, d);
        }
        let v = self.c.eval(e, &st.model.v, st.model.stamp) as u64;
        let k = self.c.cst(v, w);
        let q = self.c.eq(e, k);
        let nq = self.c.not(q);
        match self.s.check(&mut self.c, &st.pc, &[nq], &st.model)? {
            Ans::Sat(m) => {
                let mut o = st.clone();
                self.add_pc(&mut o, nq);
                o.model = m;
                o.forced = Some((2, v));
                let mut n = 0;
                let mut l = o.log.as_ref();
                while let Some(x) = l {
                    if x.d.0 != 2 {
                        break;
                    }
                    n += 1;
                    l = x.prev.as_ref();
                }
                if n > MAXCONC {
                    return unsup("too many values for an address or size");
                }
                self.push(o);
                self.add_pc(st, q);
            }
            Ans::Unsat => {}
            Ans::Unknown => return unsup("solver timeout"),
        }
        Self::log(st, (1, v));
        Rc::make_mut(&mut st.conc).insert(e, v);
        Ok(v)
    }
    /// Split on the value of a float outside the exact fragment.
    fn fconc(&mut self, st: &mut State, e: E) -> R<E> {
        let mut l = Vec::new();
        self.c.float_leaves(e, &mut l);
        for x in l {
            self.concretize(st, x)?;
        }
        let v = self.c.eval(e, &st.model.v, st.model.stamp) as u64;
        Ok(self.c.cst(v, self.c.w(e)))
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(k) => Ok(*k),
            Val::S(e) => self.concretize(st, *e),
            _ => unsup("aggregate address"),
        }
    }

    fn switch(&mut self, st: &mut State, e: E, w: u32, cases: &[(u64, u32)], def: u32) -> R<u32> {
        self.defined(e, "a branch")?;
        // conditions per arm; the last is the default
        let n = cases.len();
        let mut conds = Vec::with_capacity(n + 1);
        let mut none = self.c.t;
        for (k, _) in cases {
            let k = self.c.cst(*k, w);
            let q = self.c.eq(e, k);
            let nq = self.c.not(q);
            none = self.c.and(none, nq);
            conds.push(q);
        }
        conds.push(none);
        let edge = |i: usize| if i < n { cases[i].1 } else { def };
        if let Some(i) = conds.iter().position(|q| *q == self.c.t) {
            return Ok(edge(i));
        }
        while let Some(d) = self.next_replay(st) {
            Self::log(st, d);
            let q = conds[d.1 as usize];
            match d.0 {
                3 => {
                    self.add_pc(st, q);
                    self.after_replay(st)?;
                    return Ok(edge(d.1 as usize));
                }
                4 => {
                    let nq = self.c.not(q);
                    self.add_pc(st, nq);
                    self.after_replay(st)?;
                }
                _ => return unsup("internal: replay out of step (switch)"),
            }
        }
        if let Some(d) = st.forced.take() {
            Self::log(st, d);
        }
        let mut pick = None;
        for (i, q) in conds.iter().enumerate() {
            if self.c.eval(*q, &st.model.v, st.model.stamp) == 1 {
                pick = Some(i);
            }
        }
        let i = match pick {
            Some(i) => i,
            None => return unsup("internal: no switch arm"),
        };
        let q = conds[i];
        let nq = self.c.not(q);
        match self.s.check(&mut self.c, &st.pc, &[nq], &st.model)? {
            Ans::Sat(m) => {
                let mut o = st.clone();
                self.add_pc(&mut o, nq);
                o.model = m;
                o.forced = Some((4, i as u64));
                self.push(o);
                self.add_pc(st, q);
            }
            Ans::Unsat => {}
            Ans::Unknown => return unsup("solver timeout"),
        }
        Self::log(st, (3, i as u64));
        Ok(edge(i))
    }

    // ---- control ----
    fn jump(&mut self, st: &mut State, e: u32) -> R<()> {
        let f: *const Func = Arc::as_ptr(&st.cur.f);
        let edge = unsafe { &(&(*f).edges)[e as usize] };
        match edge.moves.len() {
            0 => {}
            1 => {
                let v = self.op(st, &edge.moves[0].1);
                st.cur.regs[edge.moves[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<Val> = edge.moves.iter().map(|m| self.op(st, &m.1)).collect();
                for (m, v) in edge.moves.iter().zip(vs) {
                    st.cur.regs[m.0 as usize] = v;
                }
            }
        }
        st.cur.pc = edge.target;
        Ok(())
    }
    fn call(&mut self, st: &mut State, id: u32, args: Vec<Val>, is_try: bool) -> R<()> {
        let f = self.func(id)?;
        if st.stack.len() > 400 {
            return bad("recursion deeper than 400 frames");
        }
        if f.nparams as usize != args.len() {
            return unsup(format!("call of {} with {} arguments", f.pretty, args.len()));
        }
        let mut regs = args;
        regs.resize(f.nregs as usize, Val::I(0));
        let fr = Frame { f, pc: 0, regs, allocas: vec![], is_try };
        let old = std::mem::replace(&mut st.cur, fr);
        st.stack.push(Rc::new(old));
        Ok(())
    }
    fn pop(&mut self, st: &mut State) -> R<bool> {
        for p in std::mem::take(&mut st.cur.allocas) {
            st.mem.dealloc(p, Kind::Stack, None)?;
        }
        match st.stack.pop() {
            Some(f) => {
                st.cur = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
                Ok(true)
            }
            None => Ok(false),
        }
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<Flow> {
        let t = st.cur.is_try;
        if !self.pop(st)? {
            return Ok(Flow::Done);
        }
        let v = if t { Some(Val::I(0)) } else { v };
        self.finish_call(st, v)
    }
    /// the call instruction at the current pc has its result
    fn finish_call(&mut self, st: &mut State, v: Option<Val>) -> R<Flow> {
        let f: *const Func = Arc::as_ptr(&st.cur.f);
        let ci = match unsafe { &(&(*f).code)[st.cur.pc as usize] } {
            Instr::Call(c) => c,
            _ => return unsup("internal: return to a non-call"),
        };
        if let (Some(d), Some(v)) = (ci.dst, v) {
            st.cur.regs[d as usize] = v;
        }
        Ok(match ci.invoke {
            Some((n, _)) => Flow::Jump(n),
            None => Flow::Next,
        })
    }
    /// propagate an exception out of the current instruction
    fn unwind(&mut self, st: &mut State, in_call: bool) -> R<Flow> {
        // the instruction at cur.pc may itself be an invoke
        let mut at_call = in_call;
        loop {
            if at_call {
                let f: *const Func = Arc::as_ptr(&st.cur.f);
                if let Instr::Call(ci) = unsafe { &(&(*f).code)[st.cur.pc as usize] } {
                    if let Some((_, u)) = ci.invoke {
                        return Ok(Flow::Jump(u));
                    }
                }
            }
            let t = st.cur.is_try;
            if !self.pop(st)? {
                return Err(Stop::Panic("a panic left the harness".into()));
            }
            if t {
                return self.finish_call(st, Some(Val::I(1)));
            }
            at_call = true;
        }
    }

    fn load(&mut self, st: &mut State, ty: &Ty, p: u64, align: u64) -> R<Val> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let n = match ty {
                    Ty::Struct(t, _) => t.len() as u64,
                    Ty::Array(n, _) | Ty::Vector(n, _) => *n,
                    _ => 0,
                };
                let mut v = Vec::new();
                for i in 0..n {
                    let (o, t) = ty.field_offset(i);
                    v.push(self.load(st, &t, p.wrapping_add(o), 1)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ if ty.is_scalar() => Ok(st.mem.load(self.m, &mut self.c, p, ty.bits(), align)?),
            _ => unsup("load type"),
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, p: u64, align: u64, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..), Val::A(a)) => {
                for (i, x) in a.iter().enumerate() {
                    let (o, t) = ty.field_offset(i as u64);
                    self.store(st, &t, p.wrapping_add(o), 1, x)?;
                }
                Ok(())
            }
            _ if ty.is_scalar() => Ok(st.mem.store(self.m, &mut self.c, p, ty.bits(), align, v)?),
            _ => unsup("store type"),
        }
    }

    fn bin(&mut self, op: BinOp, w: u32, a: Val, b: Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (&a, &b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::AShr => (sx_i(x, w) >> y.min(63)) as u64,
                    _ => {
                        if y == 0 {
                            return bad("division by zero");
                        }
                        match op {
                            BinOp::UDiv => x / y,
                            BinOp::URem => x % y,
                            BinOp::SDiv => sx_i(x, w).wrapping_div(sx_i(y, w)) as u64,
                            _ => sx_i(x, w).wrapping_rem(sx_i(y, w)) as u64,
                        }
                    }
                };
                return Ok(Val::I(m64(r, w)));
            }
        }
        let (x, y) = (self.e(&a, w)?, self.e(&b, w)?);
        let c = &mut self.c;
        let r = match op {
            BinOp::Add => c.add(x, y),
            BinOp::Sub => c.sub(x, y),
            BinOp::Mul => c.mul(x, y),
            BinOp::And => c.and(x, y),
            BinOp::Or => c.or(x, y),
            BinOp::Xor => c.xor(x, y),
            BinOp::Shl => c.shl(x, y),
            BinOp::LShr => c.lshr(x, y),
            BinOp::AShr => c.ashr(x, y),
            BinOp::UDiv => c.div(O::UDiv, x, y),
            BinOp::SDiv => c.div(O::SDiv, x, y),
            BinOp::URem => c.div(O::URem, x, y),
            BinOp::SRem => c.div(O::SRem, x, y),
        };
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (&a, &b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let (sx_, sy) = (sx_i(x, w), sx_i(y, w));
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Slt => sx_ < sy,
                    Pred::Sle => sx_ <= sy,
                    Pred::Sgt => sx_ > sy,
                    Pred::Sge => sx_ >= sy,
                };
                return Ok(Val::I(r as u64));
            }
        }
        let (x, y) = (self.e(&a, w)?, self.e(&b, w)?);
        let c = &mut self.c;
        let r = match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => {
                let e = c.eq(x, y);
                c.not(e)
            }
            Pred::Ult => c.ult(x, y),
            Pred::Ugt => c.ult(y, x),
            Pred::Ule => {
                let e = c.ult(y, x);
                c.not(e)
            }
            Pred::Uge => {
                let e = c.ult(x, y);
                c.not(e)
            }
            Pred::Slt => c.slt(x, y),
            Pred::Sgt => c.slt(y, x),
            Pred::Sle => {
                let e = c.slt(y, x);
                c.not(e)
            }
            Pred::Sge => {
                let e = c.slt(x, y);
                c.not(e)
            }
        };
        Ok(self.v(r))
    }

    fn step(&mut self, st: &mut State) -> R<Flow> {
        st.steps += 1;
        if st.steps & 0xfff == 0 {
            if st.steps > self.lim.steps {
                return Err(Stop::Panic(format!("no end after {} steps (hang)", st.steps)));
            }
            if Instant::now() > self.lim.deadline {
                return unsup("time limit");
            }
        }
        let f: *const Func = Arc::as_ptr(&st.cur.f);
        let ins = unsafe { &(&(*f).code)[st.cur.pc as usize] };
        if self.trace {
            eprintln!("{}@{}: {:?}", st.cur.f.pretty.chars().take(60).collect::<String>(), st.cur.pc, ins);
        }
        match ins {
            Instr::Bin { op, w, dst, a, b } => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let r = self.bin(*op, *w, a, b)?;
                st.cur.regs[*dst as usize] = r;
            }
            Instr::Icmp { p, w, dst, a, b } => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let r = self.icmp(*p, *w, a, b)?;
                st.cur.regs[*dst as usize] = r;
            }
            Instr::FBin { op, w, dst, a, b } => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                if *w != 64 {
                    match (&a, &b) {
                        (Val::I(x), Val::I(y)) if *w == 32 => {
                            let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                            let r = match op {
                                FBin::Add => x + y,
                                FBin::Sub => x - y,
                                FBin::Mul => x * y,
                                FBin::Div => x / y,
                                FBin::Rem => x % y,
                            };
                            st.cur.regs[*dst as usize] = Val::I(r.to_bits() as u64);
                            return Ok(Flow::Next);
                        }
                        _ => return unsup("symbolic f32"),
                    }
                }
                let (x, y) = (self.e(&a, 64)?, self.e(&b, 64)?);
                let o = match op {
                    FBin::Add => 0,
                    FBin::Sub => 1,
                    FBin::Mul => 2,
                    FBin::Div => 3,
                    FBin::Rem => 4,
                };
                let r = match self.c.fbin(o, x, y) {
                    Ok(r) => r,
                    Err(_) => {
                        let (x, y) = (self.fconc(st, x)?, self.fconc(st, y)?);
                        self.c.fbin(o, x, y)?
                    }
                };
                st.cur.regs[*dst as usize] = self.v(r);
            }
            Instr::FNeg { w, dst, a } => {
                let a = self.op(st, a);
                if *w != 64 {
                    return unsup("f32 neg");
                }
                let x = self.e(&a, 64)?;
                let r = self.c.fneg(x)?;
                st.cur.regs[*dst as usize] = self.v(r);
            }
            Instr::Fcmp { mask, w, dst, a, b } => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                if *w != 64 {
                    return unsup("f32 compare");
                }
                let (x, y) = (self.e(&a, 64)?, self.e(&b, 64)?);
                let r = match self.c.fcmp(*mask, x, y) {
                    Ok(r) => r,
                    Err(_) => {
                        let (x, y) = (self.fconc(st, x)?, self.fconc(st, y)?);
                        self.c.fcmp(*mask, x, y)?
                    }
                };
                st.cur.regs[*dst as usize] = self.v(r);
            }
            Instr::Cast { op, from, to, dst, a } => {
                let v = self.op(st, a);
                let r = self.cast(*op, *from, *to, v)?;
                st.cur.regs[*dst as usize] = r;
            }
            Instr::Select { dst, w, c, a, b } => {
                let cv = self.op(st, c);
                let r = match cv {
                    Val::I(k) => self.op(st, if k == 1 { a } else { b }),
                    Val::S(ce) => {
                        let (x, y) = (self.op(st, a), self.op(st, b));
                        let tainted = [&x, &y].iter().any(|v| match v {
                            Val::S(e) => self.c.n[*e as usize].undef,
                            Val::A(_) => true,
                            _ => false,
                        });
                        if tainted || *w == 0xffff || *w == 0 {
                            if self.decide(st, ce)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            let (x, y) = (self.e(&x, *w)?, self.e(&y, *w)?);
                            let r = self.c.ite(ce, x, y);
                            self.v(r)
                        }
                    }
                    _ => return unsup("select condition"),
                };
                st.cur.regs[*dst as usize] = r;
            }
            Instr::Gep { dst, base, off, idx } => {
                let mut v = self.op(st, base);
                if let Val::I(p) = v {
                    let mut p = p.wrapping_add(*off);
                    let mut sym = None;
                    for (i, (o, w, s)) in idx.iter().enumerate() {
                        match self.op(st, o) {
                            Val::I(k) => p = p.wrapping_add((sx_i(k, *w) as u64).wrapping_mul(*s)),
                            _ => {
                                sym = Some(i);
                                break;
                            }
                        }
                    }
                    if sym.is_none() {
                        st.cur.regs[*dst as usize] = Val::I(p);
                        return Ok(Flow::Next);
                    }
                    v = Val::I(self.op_i(st, base));
                }
                let mut e = self.e(&v, 64)?;
                let k = self.c.cst(*off, 64);
                e = self.c.add(e, k);
                for (o, w, s) in idx {
                    let x = self.op(st, o);
                    let x = self.e(&x, *w)?;
                    let x = if *w < 64 { self.c.sext(x, 64) } else { x };
                    let k = self.c.cst(*s, 64);
                    let t = self.c.mul(x, k);
                    e = self.c.add(e, t);
                }
                st.cur.regs[*dst as usize] = self.v(e);
            }
            Instr::Load { dst, ty, ptr, align } => {
                let p = self.op(st, ptr);
                let p = self.conc(st, &p)?;
                let v = self.load(st, ty, p, *align as u64)?;
                st.cur.regs[*dst as usize] = v;
            }
            Instr::Store { ty, val, ptr, align } => {
                let p = self.op(st, ptr);
                let p = self.conc(st, &p)?;
                let v = self.op(st, val);
                self.store(st, ty, p, *align as u64, &v)?;
            }
            Instr::Alloca { dst, size, align } => {
                let p = st.mem.alloc(*size, *align, Kind::Stack);
                st.cur.allocas.push(p);
                st.cur.regs[*dst as usize] = Val::I(p);
            }
            Instr::Extract { dst, agg, path } => {
                let mut v = self.op(st, agg);
                for i in path {
                    v = match v {
                        Val::A(a) => a[*i as usize].clone(),
                        _ => return unsup("extractvalue of scalar"),
                    };
                }
                st.cur.regs[*dst as usize] = v;
            }
            Instr::Insert { dst, agg, val, path } => {
                let mut v = self.op(st, agg);
                let x = self.op(st, val);
                fn ins(v: &mut Val, path: &[u32], x: Val) -> bool {
                    if path.is_empty() {
                        *v = x;
                        return true;
                    }
                    match v {
                        Val::A(a) => ins(&mut Rc::make_mut(a)[path[0] as usize], &path[1..], x),
                        _ => false,
                    }
                }
                if !ins(&mut v, path, x) {
                    return unsup("insertvalue into scalar");
                }
                st.cur.regs[*dst as usize] = v;
            }
            Instr::Freeze { dst, w, a } => {
                let v = self.op(st, a);
                let v = match v {
                    Val::S(e) if self.c.n[e as usize].undef => {
                        if self.c.n[e as usize].o == O::Undef {
                            if *w <= 64 {
                                Val::I(0)
                            } else {
                                Val::S(self.c.cst128(0, *w))
                            }
                        } else {
                            return unsup("freeze of a partly undefined value");
                        }
                    }
                    v => v,
                };
                st.cur.regs[*dst as usize] = v;
            }
            Instr::Rmw { dst, op, ty, ptr, val } => {
                let p = self.op(st, ptr);
                let p = self.conc(st, &p)?;
                let old = self.load(st, ty, p, 1)?;
                let v = self.op(st, val);
                let w = ty.bits();
                let new = match *op {
                    "add" => self.bin(BinOp::Add, w, old.clone(), v)?,
                    "sub" => self.bin(BinOp::Sub, w, old.clone(), v)?,
                    "or" => self.bin(BinOp::Or, w, old.clone(), v)?,
                    "and" => self.bin(BinOp::And, w, old.clone(), v)?,
                    "xor" => self.bin(BinOp::Xor, w, old.clone(), v)?,
                    _ => v,
                };
                self.store(st, ty, p, 1, &new)?;
                st.cur.regs[*dst as usize] = old;
            }
            Instr::CmpXchg { dst, ty, ptr, cmp, new } => {
                let p = self.op(st, ptr);
                let p = self.conc(st, &p)?;
                let old = self.load(st, ty, p, 1)?;
                let (a, b) = (self.op(st, cmp), self.op(st, new));
                let q = self.icmp(Pred::Eq, ty.bits(), old.clone(), a)?;
                let q = self.e(&q, 1)?;
                let hit = self.decide(st, q)?;
                if hit {
                    self.store(st, ty, p, 1, &b)?;
                }
                st.cur.regs[*dst as usize] = Val::A(Rc::new(vec![old, Val::I(hit as u64)]));
            }
            Instr::Landing { dst, cleanup, filter, catch } => {
                let sel = if *catch { 1 } else { 0 };
                let _ = (cleanup, filter);
                st.cur.regs[*dst as usize] = Val::A(Rc::new(vec![Val::I(8), Val::I(sel)]));
            }
            Instr::Resume { .. } => return self.unwind(st, false),
            Instr::Br { e } => return Ok(Flow::Jump(*e)),
            Instr::CondBr { c, t, f } => {
                let v = self.op(st, c);
                let side = match v {
                    Val::I(k) => k == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => return unsup("branch on aggregate"),
                };
                return Ok(Flow::Jump(if side { *t } else { *f }));
            }
            Instr::Switch { w, v, def, cases } => {
                let v = self.op(st, v);
                let e = match v {
                    Val::I(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                    Val::S(e) => self.switch(st, e, *w, cases, *def)?,
                    _ => return unsup("switch on aggregate"),
                };
                return Ok(Flow::Jump(e));
            }
            Instr::Ret { v } => {
                let v = v.as_ref().map(|v| self.op(st, v));
                return self.ret(st, v);
            }
            Instr::Unreachable => return bad("reached unreachable code"),
            Instr::Unsupported(s) => return unsup(format!("instruction {}", s)),
            Instr::Call(ci) => return self.do_call(st, ci),
        }
        Ok(Flow::Next)
    }
    fn op_i(&mut self, st: &State, o: &Opnd) -> u64 {
        match self.op(st, o) {
            Val::I(k) => k,
            _ => 0,
        }
    }

    fn cast(&mut self, op: Cast, from: u32, to: u32, v: Val) -> R<Val> {
        if let Val::I(k) = v {
            if from <= 64 && to <= 64 {
                let r = match op {
                    Cast::Trunc => m64(k, to),
                    Cast::ZExt | Cast::Same => k,
                    Cast::SExt => m64(sx_i(k, from) as u64, to),
                    Cast::SiToFp => {
                        let x = sx_i(k, from);
                        if to == 64 {
                            (x as f64).to_bits()
                        } else {
                            (x as f32).to_bits() as u64
                        }
                    }
                    Cast::UiToFp => {
                        if to == 64 {
                            (k as f64).to_bits()
                        } else {
                            (k as f32).to_bits() as u64
                        }
                    }
                    Cast::FpExt => (f32::from_bits(k as u32) as f64).to_bits(),
                    Cast::FpTrunc => (f64::from_bits(k) as f32).to_bits() as u64,
                    Cast::FpToSi | Cast::FpToUi => {
                        let x = if from == 64 { f64::from_bits(k) } else { f32::from_bits(k as u32) as f64 };
                        m64(if op == Cast::FpToSi { x as i64 as u64 } else { x as u64 }, to)
                    }
                };
                return Ok(Val::I(r));
            }
        }
        let e = self.e(&v, from)?;
        let c = &mut self.c;
        let r = match op {
            Cast::Trunc => c.extract(e, 0, to),
            Cast::ZExt => c.zext(e, to),
            Cast::SExt => c.sext(e, to),
            Cast::Same => e,
            Cast::SiToFp if to == 64 => c.sitofp(e)?,
            Cast::UiToFp if to == 64 && from < 64 => {
                let z = c.zext(e, 64);
                c.sitofp(z)?
            }
            Cast::UiToFp if to == 64 && c.rng(e).0 >= 0 => c.sitofp(e)?,
            Cast::FpToSi if from == 64 => c.fptosi(e, to)?,
            _ => return unsup(format!("symbolic {:?}", op)),
        };
        Ok(self.v(r))
    }

    fn do_call(&mut self, st: &mut State, ci: &CallI) -> R<Flow> {
        match &ci.callee {
            Callee::Func(id) => {
                let args: Vec<Val> = ci.args.iter().map(|a| self.op(st, a)).collect();
                self.call(st, *id, args, false)?;
                Ok(Flow::Stay)
            }
            Callee::Indirect(o) => {
                let p = self.op(st, o);
                let p = self.conc(st, &p)?;
                self.call_ptr(st, p, ci)
            }
            Callee::Unknown(n) => unsup(format!("call of external function {}", n)),
            Callee::Intr(i) => self.intr(st, *i, ci),
        }
    }
    fn fn_of(&self, p: u64) -> R<u32> {
        let o = p & 0xffff_ffff;
        if p >> 32 != FUNC_SLOT || o < 0x1000 || (o - 0x1000) % 16 != 0 || (o - 0x1000) / 16 >= self.funcs.len() as u64 {
            return bad(format!("call through a non-function pointer {:#x}", p));
        }
        let id = ((o - 0x1000) / 16) as u32;
        debug_assert_eq!(func_addr(id), p);
        Ok(id)
    }
    fn call_ptr(&mut self, st: &mut State, p: u64, ci: &CallI) -> R<Flow> {
        let id = self.fn_of(p)?;
        let (n, pretty) = self.m.func_name(id);
        if let Some(i) = runtime_fn(n, pretty) {
            return self.intr(st, i, ci);
        }
        let args: Vec<Val> = ci.args.iter().map(|a| self.op(st, a)).collect();
        self.call(st, id, args, false)?;
        Ok(Flow::Stay)
    }
    fn arg(&mut self, st: &State, ci: &CallI, i: usize) -> Val {
        self.op(st, &ci.args[i])
    }
    fn arg_e(&mut self, st: &State, ci: &CallI, i: usize) -> R<E> {
        let v = self.arg(st, ci, i);
        self.e(&v, ci.argw[i])
    }
    fn arg_k(&mut self, st: &mut State, ci: &CallI, i: usize) -> R<u64> {
        let v = self.arg(st, ci, i);
        self.conc(st, &v)
    }

    fn intr(&mut self, st: &mut State, i: Intr, ci: &CallI) -> R<Flow> {
        let w = ci.ret.bits();
        let mut out: Option<Val> = None;
        match i {
            Intr::Nop => {}
            Intr::MemCpy | Intr::MemMove => {
                let d = self.arg_k(st, ci, 0)?;
                let s = self.arg_k(st, ci, 1)?;
                let n = self.arg_k(st, ci, 2)?;
                st.mem.copy(self.m, &mut self.c, d, s, n, i == Intr::MemMove)?;
                out = Some(Val::I(d));
            }
            Intr::MemSet => {
                let d = self.arg_k(st, ci, 0)?;
                let v = self.arg(st, ci, 1);
                let n = self.arg_k(st, ci, 2)?;
                match v {
                    Val::I(v) => st.mem.set(self.m, &mut self.c, d, v as u8, n)?,
                    Val::S(_) => {
                        for k in 0..n {
                            st.mem.store(self.m, &mut self.c, d + k, 8, 1, &v)?;
                        }
                    }
                    _ => return unsup("memset value"),
                }
                out = Some(Val::I(d));
            }
            Intr::Memcmp => {
                let a = self.arg_k(st, ci, 0)?;
                let b = self.arg_k(st, ci, 1)?;
                let n = self.arg_k(st, ci, 2)?;
                let mut r = 0i64;
                let mut all = self.c.t;
                let mut sym = false;
                for k in 0..n {
                    let x = st.mem.load(self.m, &mut self.c, a + k, 8, 1)?;
                    let y = st.mem.load(self.m, &mut self.c, b + k, 8, 1)?;
                    match (&x, &y) {
                        (Val::I(p), Val::I(q)) if !sym => {
                            if p != q {
                                r = if p < q { -1 } else { 1 };
                                break;
                            }
                        }
                        _ => {
                            sym = true;
                            let (x, y) = (self.e(&x, 8)?, self.e(&y, 8)?);
                            let q = self.c.eq(x, y);
                            all = self.c.and(all, q);
                        }
                    }
                }
                if sym {
                    let (z, o) = (self.c.cst(0, w), self.c.cst(1, w));
                    let e = self.c.ite(all, z, o);
                    out = Some(self.v(e));
                } else {
                    out = Some(Val::I(m64(r as u64, w)));
                }
            }
            Intr::SAddO | Intr::UAddO | Intr::SSubO | Intr::USubO | Intr::SMulO | Intr::UMulO => {
                let w = ci.argw[0];
                if w > 64 {
                    return unsup("wide overflow arithmetic");
                }
                let (a, b) = (self.arg(st, ci, 0), self.arg(st, ci, 1));
                let signed = matches!(i, Intr::SAddO | Intr::SSubO | Intr::SMulO);
                if let (Val::I(x), Val::I(y)) = (&a, &b) {
                    let (p, q) = if signed {
                        (sx_i(*x, w) as i128, sx_i(*y, w) as i128)
                    } else {
                        (*x as i128, *y as i128)
                    };
                    let r = match i {
                        Intr::SAddO | Intr::UAddO => p + q,
                        Intr::SSubO | Intr::USubO => p - q,
                        _ => {
                            if signed {
                                p * q
                            } else {
                                ((p as u128) * (q as u128)).min(i128::MAX as u128) as i128
                            }
                        }
                    };
                    let low = match i {
                        Intr::UMulO => x.wrapping_mul(*y),
                        _ => r as u64,
                    };
                    let (lo, hi) = if signed {
                        (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
                    } else {
                        (0, (1i128 << w) - 1)
                    };
                    let ov = r < lo || r > hi;
                    out = Some(Val::A(Rc::new(vec![Val::I(m64(low, w)), Val::I(ov as u64)])));
                } else {
                    let (x, y) = (self.e(&a, w)?, self.e(&b, w)?);
                    let (r, ov) = self.overflow(i, w, x, y)?;
                    out = Some(Val::A(Rc::new(vec![self.v(r), self.v(ov)])));
                }
            }
            Intr::USubSat | Intr::UAddSat => {
                let (x, y) = (self.arg_e(st, ci, 0)?, self.arg_e(st, ci, 1)?);
                let r = if i == Intr::USubSat {
                    let q = self.c.ult(x, y);
                    let z = self.c.cst(0, w);
                    let d = self.c.sub(x, y);
                    self.c.ite(q, z, d)
                } else {
                    let s = self.c.add(x, y);
                    let q = self.c.ult(s, x);
                    let m = self.c.cst(u64::MAX, w);
                    self.c.ite(q, m, s)
                };
                out = Some(self.v(r));
            }
            Intr::SAddSat | Intr::SSubSat => {
                let (x, y) = (self.arg_e(st, ci, 0)?, self.arg_e(st, ci, 1)?);
                let (r, ov) = self.overflow(if i == Intr::SAddSat { Intr::SAddO } else { Intr::SSubO }, w, x, y)?;
                let z = self.c.cst(0, w);
                let neg = self.c.slt(x, z);
                let (mn, mx) = (self.c.cst(1 << (w - 1), w), self.c.cst((1 << (w - 1)) - 1, w));
                let s = self.c.ite(neg, mn, mx);
                let r = self.c.ite(ov, s, r);
                out = Some(self.v(r));
            }
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                let (x, y) = (self.arg_e(st, ci, 0)?, self.arg_e(st, ci, 1)?);
                let lt = match i {
                    Intr::UMin | Intr::UMax => self.c.ult(x, y),
                    _ => self.c.slt(x, y),
                };
                let r = match i {
                    Intr::UMin | Intr::SMin => self.c.ite(lt, x, y),
                    _ => self.c.ite(lt, y, x),
                };
                out = Some(self.v(r));
            }
            Intr::Abs => {
                let x = self.arg_e(st, ci, 0)?;
                let z = self.c.cst(0, w);
                let q = self.c.slt(x, z);
                let n = self.c.sub(z, x);
                let r = self.c.ite(q, n, x);
                out = Some(self.v(r));
            }
            Intr::UCmp | Intr::SCmp => {
                let (x, y) = (self.arg_e(st, ci, 0)?, self.arg_e(st, ci, 1)?);
                let (lt, gt) = if i == Intr::UCmp {
                    (self.c.ult(x, y), self.c.ult(y, x))
                } else {
                    (self.c.slt(x, y), self.c.slt(y, x))
                };
                let (m, z, o) = (self.c.cst(u64::MAX, w), self.c.cst(0, w), self.c.cst(1, w));
                let r = self.c.ite(gt, o, z);
                let r = self.c.ite(lt, m, r);
                out = Some(self.v(r));
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bswap | Intr::BitReverse => {
                let k = self.arg_k(st, ci, 0)?;
                let r = match i {
                    Intr::Ctlz => (k << (64 - w)).leading_zeros().min(w) as u64,
                    Intr::Cttz => k.trailing_zeros().min(w) as u64,
                    Intr::Ctpop => k.count_ones() as u64,
                    Intr::Bswap => k.swap_bytes() >> (64 - w),
                    _ => k.reverse_bits() >> (64 - w),
                };
                out = Some(Val::I(r));
            }
            Intr::FShl | Intr::FShr => {
                let a = self.arg_k(st, ci, 0)?;
                let b = self.arg_k(st, ci, 1)?;
                let s = self.arg_k(st, ci, 2)? % w as u64;
                let x = (a as u128) << w | b as u128;
                let r = if i == Intr::FShl { (x << s >> w) as u64 } else { (x >> s) as u64 };
                out = Some(Val::I(m64(r, w)));
            }
            Intr::IsConstant => out = Some(Val::I(0)),
            Intr::ThreadLocalAddr | Intr::Expect => out = Some(self.arg(st, ci, 0)),
            Intr::Trap | Intr::Abort => return bad("the process aborts"),
            Intr::HandleAllocError => return bad("allocation error"),
            Intr::FAbs | Intr::FSqrt => {
                let x = self.arg_e(st, ci, 0)?;
                let x = if i == Intr::FSqrt && self.c.fsqrt(x).is_err() { self.fconc(st, x)? } else { x };
                let r = if i == Intr::FAbs { self.c.fabs(x)? } else { self.c.fsqrt(x)? };
                out = Some(self.v(r));
            }
            Intr::FToSiSat(w) => {
                let x = self.arg_e(st, ci, 0)?;
                let x = if self.c.fptosi_sat(x, w).is_err() { self.fconc(st, x)? } else { x };
                let r = self.c.fptosi_sat(x, w)?;
                out = Some(self.v(r));
            }
            Intr::FMinNum | Intr::FMaxNum => {
                let (x, y) = (self.arg_e(st, ci, 0)?, self.arg_e(st, ci, 1)?);
                if let (Some(p), Some(q)) = (self.c.kst(x), self.c.kst(y)) {
                    let (p, q) = (f64::from_bits(p), f64::from_bits(q));
                    let r = if i == Intr::FMinNum { p.min(q) } else { p.max(q) };
                    out = Some(Val::I(r.to_bits()));
                } else {
                    // a NaN operand yields the other one
                    let xn = self.c.fcmp(1, x, x)?;
                    let yn = self.c.fcmp(1, y, y)?;
                    let lt = self.c.fcmp(2, x, y)?;
                    let r = if i == Intr::FMinNum { self.c.ite(lt, x, y) } else { self.c.ite(lt, y, x) };
                    let r = self.c.ite(yn, x, r);
                    let r = self.c.ite(xn, y, r);
                    out = Some(self.v(r));
                }
            }
            Intr::FRound(k) => {
                let x = self.arg_e(st, ci, 0)?;
                let x = if self.c.fround(k, x).is_err() { self.fconc(st, x)? } else { x };
                let r = self.c.fround(k, x)?;
                out = Some(self.v(r));
            }
            Intr::FCopysign => {
                let (x, y) = (self.arg_e(st, ci, 0)?, self.arg_e(st, ci, 1)?);
                let r = self.c.fcopysign(x, y)?;
                out = Some(self.v(r));
            }
            Intr::FMulAdd => {
                let (x, y, z) = (self.arg_e(st, ci, 0)?, self.arg_e(st, ci, 1)?, self.arg_e(st, ci, 2)?);
                let r = self.c.fma(x, y, z)?;
                out = Some(self.v(r));
            }
            Intr::FPowi => {
                let x = self.arg_e(st, ci, 0)?;
                let k = self.arg_k(st, ci, 1)? as u32 as i32;
                if !(1..=8).contains(&k) {
                    return unsup("float power");
                }
                let mut r = x;
                for _ in 1..k {
                    r = self.c.fbin(2, r, x)?;
                }
                out = Some(self.v(r));
            }
            Intr::Freeze => return unsup("freeze"),
            Intr::RustAlloc | Intr::RustAllocZeroed => {
                let n = self.arg_k(st, ci, 0)?;
                let a = self.arg_k(st, ci, 1)?;
                if n == 0 {
                    return bad("allocation of zero bytes");
                }
                if n > 1 << 24 || !a.is_power_of_two() {
                    return bad(format!("allocation of {} bytes, alignment {}", n, a));
                }
                let p = st.mem.alloc(n, a as u32, Kind::Heap);
                if i == Intr::RustAllocZeroed {
                    st.mem.set(self.m, &mut self.c, p, 0, n)?;
                }
                out = Some(Val::I(p));
            }
            Intr::RustDealloc => {
                let p = self.arg_k(st, ci, 0)?;
                let n = self.arg_k(st, ci, 1)?;
                let a = self.arg_k(st, ci, 2)?;
                st.mem.dealloc(p, Kind::Heap, Some((n, a)))?;
            }
            Intr::RustRealloc => {
                let p = self.arg_k(st, ci, 0)?;
                let n = self.arg_k(st, ci, 1)?;
                let a = self.arg_k(st, ci, 2)?;
                let nn = self.arg_k(st, ci, 3)?;
                if nn == 0 || nn > 1 << 24 {
                    return bad(format!("reallocation to {} bytes", nn));
                }
                let q = st.mem.alloc(nn, a as u32, Kind::Heap);
                st.mem.copy(self.m, &mut self.c, q, p, n.min(nn), false)?;
                st.mem.dealloc(p, Kind::Heap, Some((n, a)))?;
                out = Some(Val::I(q));
            }
            Intr::BeginUnwind => return Err(Stop::Panic("panic".into())),
            Intr::ResumeUnwind => return unsup("resume_unwind in the code under test"),
            Intr::SymPanic => return self.unwind(st, true),
            Intr::SymParam => {
                let k = self.arg_k(st, ci, 0)? as usize;
                let v = match self.params.get(k) {
                    Some(v) => *v,
                    None => return unsup(format!("missing parameter {}", k)),
                };
                out = Some(Val::I(v as u64));
            }
            Intr::SymInt | Intr::SymBool => {
                let (lo, hi, vw) = if i == Intr::SymInt {
                    (self.arg_k(st, ci, 0)? as i64, self.arg_k(st, ci, 1)? as i64, 64)
                } else {
                    (0, 1, 1)
                };
                if lo > hi {
                    return unsup("empty symbol range");
                }
                let idx = st.nsym;
                st.nsym += 1;
                let v = if lo == hi {
                    Val::I(lo as u64)
                } else {
                    let e = self.c.var(idx, vw, lo, hi);
                    Val::S(e)
                };
                st.syms.push((0, v.clone()));
                out = Some(v);
            }
            Intr::SymChoice => {
                let n = self.arg_k(st, ci, 0)?;
                if n == 0 {
                    return Err(Stop::Infeasible);
                }
                let k = if let Some(d) = self.next_replay(st) {
                    if d.0 != 1 {
                        return unsup("internal: replay out of step (choice)");
                    }
                    Self::log(st, d);
                    self.after_replay(st)?;
                    d.1
                } else if let Some(d) = st.forced.take() {
                    Self::log(st, d);
                    d.1
                } else {
                    for k in (1..n).rev() {
                        let mut o = st.clone();
                        o.forced = Some((1, k));
                        self.push(o);
                    }
                    Self::log(st, (1, 0));
                    0
                };
                st.syms.push((1, Val::I(k)));
                out = Some(Val::I(k));
            }
            Intr::SymAssume => {
                let q = self.arg_e(st, ci, 0)?;
                self.defined(q, "an assumption")?;
                match self.c.kst(q) {
                    Some(1) => {}
                    Some(_) => return Err(Stop::Infeasible),
                    None => {
                        if st.replay.is_some() {
                            self.add_pc(st, q);
                        } else if self.c.eval(q, &st.model.v, st.model.stamp) == 1 {
                            self.add_pc(st, q);
                        } else {
                            match self.s.check(&mut self.c, &st.pc, &[q], &st.model)? {
                                Ans::Sat(m) => {
                                    st.model = m;
                                    self.add_pc(st, q);
                                }
                                Ans::Unsat => return Err(Stop::Infeasible),
                                Ans::Unknown => return unsup("solver timeout"),
                            }
                        }
                    }
                }
            }
            Intr::SymAssert => {
                let q = self.arg_e(st, ci, 0)?;
                self.defined(q, "an assertion")?;
                self.out.asserts += 1;
                match self.c.kst(q) {
                    Some(1) => self.out.asserts_const += 1,
                    Some(_) => {
                        let s = self.text(st, ci)?;
                        if st.replay.is_none() {
                            self.violation(st, "assert", s, None);
                        }
                        return Err(Stop::Infeasible);
                    }
                    None => {
                        if st.replay.is_none() && !st.pc.contains(&q) {
                            let nq = self.c.not(q);
                            let ans = if self.c.eval(q, &st.model.v, st.model.stamp) == 0 {
                                Ans::Sat(st.model.clone())
                            } else {
                                self.s.check(&mut self.c, &st.pc, &[nq], &st.model)?
                            };
                            match ans {
                                Ans::Sat(m) => {
                                    let s = self.text(st, ci)?;
                                    self.violation(st, "assert", s, Some(&m));
                                    return Err(Stop::Infeasible);
                                }
                                Ans::Unsat => {}
                                Ans::Unknown => return unsup("solver timeout"),
                            }
                        }
                    }
                }
            }
            Intr::SymCover => {
                let k = self.arg_k(st, ci, 0)?;
                if st.replay.is_none() {
                    *self.out.covers.entry(k).or_insert(0) += 1;
                }
                Rc::make_mut(&mut st.evts).push(Val::I(k));
            }
            Intr::SymConcretize => {
                let k = self.arg_k(st, ci, 0)?;
                out = Some(Val::I(k));
            }
            Intr::SymTry => {
                let p = self.arg_k(st, ci, 0)?;
                let id = self.fn_of(p)?;
                let a = self.arg(st, ci, 1);
                self.call(st, id, vec![a], true)?;
                return Ok(Flow::Stay);
            }
            Intr::SymLive => out = Some(Val::I(st.mem.live_heap)),
            Intr::SymNote => {
                let v = self.arg(st, ci, 0);
                Rc::make_mut(&mut st.evts).push(v);
            }
            Intr::SymIte => {
                let q = self.arg_e(st, ci, 0)?;
                let (x, y) = (self.arg_e(st, ci, 1)?, self.arg_e(st, ci, 2)?);
                let q = if self.c.w(q) == 1 { q } else { self.c.extract(q, 0, 1) };
                let r = self.c.ite(q, x, y);
                out = Some(self.v(r));
            }
        }
        self.finish_call(st, out)
    }
    fn text(&mut self, st: &mut State, ci: &CallI) -> R<String> {
        let p = self.arg_k(st, ci, 1)?;
        let n = self.arg_k(st, ci, 2)?;
        let mut s = Vec::new();
        for k in 0..n.min(200) {
            match st.mem.load(self.m, &mut self.c, p + k, 8, 1)? {
                Val::I(b) => s.push(b as u8),
                _ => s.push(b'?'),
            }
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
    fn overflow(&mut self, i: Intr, w: u32, x: E, y: E) -> R<(E, E)> {
        let signed = matches!(i, Intr::SAddO | Intr::SSubO | Intr::SMulO);
        let c = &mut self.c;
        let r = match i {
            Intr::SAddO | Intr::UAddO => c.add(x, y),
            Intr::SSubO | Intr::USubO => c.sub(x, y),
            _ => c.mul(x, y),
        };
        let ((xl, xh), (yl, yh)) = (c.rng(x), c.rng(y));
        let (xl, xh, yl, yh) = (xl as i128, xh as i128, yl as i128, yh as i128);
        if w > 1 {
            let nonneg = xl >= 0 && yl >= 0;
            let (lo, hi) = match i {
                Intr::SAddO | Intr::UAddO => (xl + yl, xh + yh),
                Intr::SSubO | Intr::USubO => (xl - yh, xh - yl),
                _ => {
                    let p = [xl * yl, xl * yh, xh * yl, xh * yh];
                    (*p.iter().min().unwrap(), *p.iter().max().unwrap())
                }
            };
            let (ml, mh) = if signed {
                (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
            } else {
                (0, (1i128 << w) - 1)
            };
            if lo >= ml && hi <= mh && (signed || nonneg) {
                return Ok((r, c.f));
            }
        }
        let ov = match i {
            Intr::UAddO => c.ult(r, x),
            Intr::USubO => c.ult(x, y),
            _ => {
                let ww = match i {
                    Intr::SMulO | Intr::UMulO => 2 * w,
                    _ => w + 1,
                };
                if ww > 128 {
                    return unsup("overflow check too wide");
                }
                let (a, b) = if signed { (c.sext(x, ww), c.sext(y, ww)) } else { (c.zext(x, ww), c.zext(y, ww)) };
                let q = match i {
                    Intr::SAddO => c.add(a, b),
                    Intr::SSubO => c.sub(a, b),
                    _ => c.mul(a, b),
                };
                let back = if signed { c.sext(r, ww) } else { c.zext(r, ww) };
                let e = c.eq(q, back);
                c.not(e)
            }
        };
        Ok((r, ov))
    }
}

fn sx_i(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
