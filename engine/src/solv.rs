//! Satisfiability of path conditions: Z3 over range-narrowed bit-vectors, behind a slice, a cache
//! and a pool of recent models.
use crate::expr::*;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_int64(c: P, v: i64, t: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_get_numeral_int64(c: P, a: P, v: *mut i64) -> bool;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, s: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone)]
pub struct Model {
    pub v: Rc<Vec<u64>>,
    pub stamp: u64,
}

pub enum Ans {
    Sat(Model),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub solver_calls: u64,
    pub cached: u64,
    pub pooled: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
    pub maxq: std::time::Duration,
}

/// The linear-integer view of the expressions: a second solver that is asked when every
/// operation of a query is exact over the integers (no wrap-around within the tracked ranges).
struct Lia {
    s: P,
    ast: Vec<P>,
    bad: Vec<bool>,
    varast: Vec<P>,
    sort: P,
    in_solver: FxMap<E, ()>,
    doms: Vec<bool>,
    proxies: usize,
    /// the solver was made for a single hard query
    once: bool,
}

pub struct Solver {
    z: P,
    s: P,
    li: Lia,
    use_lia: bool,
    pub lia_calls: u64,
    ast: Vec<P>,
    varast: Vec<P>,
    bools: P,
    bvs: Vec<P>,
    proxy: FxMap<E, P>,
    in_solver: FxMap<E, ()>,
    doms_done: usize,
    proxies: usize,
    cache: FxMap<(u64, u64), Option<Rc<Vec<(u32, u64)>>>>,
    pool: Vec<Model>,
    stamp: u64,
    pub st: Stats,
    pub simple: bool,
    pub dump: Option<(std::path::PathBuf, u64)>,
}

fn cstr(s: &str) -> std::ffi::CString {
    std::ffi::CString::new(s).unwrap()
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let z = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            let bools = Z3_mk_bool_sort(z);
            Z3_inc_ref(z, bools);
            let mut s = Solver {
                z,
                s: std::ptr::null_mut(),
                li: Lia {
                    s: std::ptr::null_mut(),
                    ast: vec![],
                    bad: vec![],
                    varast: vec![],
                    sort: {
                        let t = Z3_mk_int_sort(z);
                        Z3_inc_ref(z, t);
                        t
                    },
                    in_solver: Default::default(),
                    doms: vec![],
                    proxies: 0,
                    once: false,
                },
                use_lia: std::env::var("SYMEX_NOLIA").is_err(),
                lia_calls: 0,
                ast: vec![],
                varast: vec![],
                bools,
                bvs: vec![std::ptr::null_mut(); 260],
                proxy: Default::default(),
                in_solver: Default::default(),
                doms_done: 0,
                proxies: 0,
                cache: Default::default(),
                pool: vec![],
                stamp: 1,
                st: Default::default(),
                simple: std::env::var("SYMEX_SIMPLE").is_ok(),
                dump: None,
            };
            s.fresh();
            s.fresh_lia(300);
            s
        }
    }
    fn fresh_lia(&mut self, ms: c_uint) {
        unsafe {
            if !self.li.s.is_null() {
                Z3_solver_dec_ref(self.z, self.li.s);
            }
            self.li.s = Z3_mk_simple_solver(self.z);
            Z3_solver_inc_ref(self.z, self.li.s);
            let p = Z3_mk_params(self.z);
            Z3_params_inc_ref(self.z, p);
            Z3_params_set_uint(self.z, p, Z3_mk_string_symbol(self.z, cstr("timeout").as_ptr()), ms);
            Z3_params_set_uint(self.z, p, Z3_mk_string_symbol(self.z, cstr("arith.solver").as_ptr()), 2);
            Z3_solver_set_params(self.z, self.li.s, p);
        }
        self.li.in_solver.clear();
        self.li.doms.clear();
        self.li.proxies = 0;
    }
    fn inum(&mut self, v: i64) -> P {
        let r = unsafe { Z3_mk_int64(self.z, v, self.li.sort) };
        self.k(r)
    }
    /// integer (or Boolean, for one-bit expressions) reading of an expression; None if some
    /// operation could wrap or is not linear
    fn itr(&mut self, c: &Ctx, root: E) -> Option<P> {
        if self.li.ast.len() < c.n.len() {
            self.li.ast.resize(c.n.len(), std::ptr::null_mut());
            self.li.bad.resize(c.n.len(), false);
        }
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if !self.li.ast[e as usize].is_null() || self.li.bad[e as usize] {
                st.pop();
                continue;
            }
            let n = c.n[e as usize];
            let kids = [n.a, n.b, n.c];
            let kids = &kids[..arity(n.o)];
            if kids.iter().any(|x| self.li.bad[*x as usize]) {
                self.li.bad[e as usize] = true;
                st.pop();
                continue;
            }
            let mut ready = true;
            for x in kids {
                if self.li.ast[*x as usize].is_null() {
                    st.push(*x);
                    ready = false;
                }
            }
            if ready {
                match self.itr1(c, e) {
                    Some(r) => self.li.ast[e as usize] = self.k(r),
                    None => self.li.bad[e as usize] = true,
                }
                st.pop();
            }
        }
        let r = self.li.ast[root as usize];
        if r.is_null() {
            None
        } else {
            Some(r)
        }
    }
    fn itr1(&mut self, c: &Ctx, e: E) -> Option<P> {
        let z = self.z;
        let n = c.n[e as usize];
        let w = n.w as u32;
        if w > 64 {
            return None;
        }
        let b1 = w == 1;
        let fits = |lo: i128, hi: i128| {
            let (l, h) = full(w);
            lo >= l as i128 && hi <= h as i128
        };
        let rg = |x: E| {
            let (l, h) = c.rng(x);
            (l as i128, h as i128)
        };
        let at = |s: &Self, x: E| s.li.ast[x as usize];
        unsafe {
            Some(match n.o {
                O::Const => {
                    if b1 {
                        if n.k == 1 {
                            Z3_mk_true(z)
                        } else {
                            Z3_mk_false(z)
                        }
                    } else {
                        self.inum(sx(n.k, w))
                    }
                }
                O::Var => {
                    let s = if b1 { self.bools } else { self.li.sort };
                    let nm = cstr(&format!("i{}", n.k));
                    let r = Z3_mk_const(z, Z3_mk_string_symbol(z, nm.as_ptr()), s);
                    let i = n.k as usize;
                    if self.li.varast.len() <= i {
                        self.li.varast.resize(i + 1, std::ptr::null_mut());
                    }
                    self.li.varast[i] = self.k(r);
                    r
                }
                O::Not => Z3_mk_not(z, at(self, n.a)),
                O::And | O::Or | O::Xor if b1 => {
                    let (a, b) = (at(self, n.a), at(self, n.b));
                    match n.o {
                        O::And => Z3_mk_and(z, 2, [a, b].as_ptr()),
                        O::Or => Z3_mk_or(z, 2, [a, b].as_ptr()),
                        _ => Z3_mk_xor(z, a, b),
                    }
                }
                O::Ite => Z3_mk_ite(z, at(self, n.a), at(self, n.b), at(self, n.c)),
                O::Add | O::Sub => {
                    let ((al, ah), (bl, bh)) = (rg(n.a), rg(n.b));
                    let (lo, hi) = if n.o == O::Add { (al + bl, ah + bh) } else { (al - bh, ah - bl) };
                    if b1 || !fits(lo, hi) {
                        return None;
                    }
                    let ab = [at(self, n.a), at(self, n.b)];
                    if n.o == O::Add {
                        Z3_mk_add(z, 2, ab.as_ptr())
                    } else {
                        Z3_mk_sub(z, 2, ab.as_ptr())
                    }
                }
                O::Mul => {
                    let k = c.kst(n.a).is_some() || c.kst(n.b).is_some();
                    let ((al, ah), (bl, bh)) = (rg(n.a), rg(n.b));
                    let p = [al * bl, al * bh, ah * bl, ah * bh];
                    if b1 || !k || !fits(*p.iter().min().unwrap(), *p.iter().max().unwrap()) {
                        return None;
                    }
                    Z3_mk_mul(z, 2, [at(self, n.a), at(self, n.b)].as_ptr())
                }
                O::ZExt => {
                    if c.w(n.a) == 1 {
                        let (x, y) = (self.inum(1), self.inum(0));
                        Z3_mk_ite(z, at(self, n.a), x, y)
                    } else if c.w(n.a) <= 64 && c.rng(n.a).0 >= 0 {
                        at(self, n.a)
                    } else {
                        return None;
                    }
                }
                O::SExt => {
                    if c.w(n.a) == 1 {
                        let (x, y) = (self.inum(-1), self.inum(0));
                        Z3_mk_ite(z, at(self, n.a), x, y)
                    } else {
                        at(self, n.a)
                    }
                }
                O::Extract => {
                    let (al, ah) = rg(n.a);
                    if b1 || n.k != 0 || c.w(n.a) > 64 || !fits(al, ah) {
                        return None;
                    }
                    at(self, n.a)
                }
                O::Eq | O::Ult | O::Slt => {
                    let (x, y) = (at(self, n.a), at(self, n.b));
                    if c.w(n.a) == 1 {
                        match n.o {
                            O::Eq => Z3_mk_iff(z, x, y),
                            _ => return None,
                        }
                    } else if c.w(n.a) > 64 {
                        return None;
                    } else {
                        match n.o {
                            O::Eq => Z3_mk_eq(z, x, y),
                            O::Ult if c.rng(n.a).0 < 0 || c.rng(n.b).0 < 0 => return None,
                            _ => Z3_mk_lt(z, x, y),
                        }
                    }
                }
                _ => return None,
            })
        }
    }
    fn lia_once(&mut self, c: &Ctx, used: &[E], asts: &[P], vars: &[u32]) -> Option<c_int> {
        let mut lits = Vec::with_capacity(used.len());
        for (e, a) in used.iter().zip(asts.iter()) {
            let p = self.proxy_of(*e);
            if self.li.in_solver.insert(*e, ()).is_none() {
                self.li.proxies += 1;
                unsafe {
                    let i = self.k(Z3_mk_implies(self.z, p, *a));
                    Z3_solver_assert(self.z, self.li.s, i);
                }
            }
            lits.push(p);
        }
        for v in vars {
            let i = *v as usize;
            if self.li.doms.len() <= i {
                self.li.doms.resize(i + 1, false);
            }
            if self.li.doms[i] {
                continue;
            }
            self.li.doms[i] = true;
            if self.li.varast.len() <= i || self.li.varast[i].is_null() {
                self.itr(c, c.var_expr(*v))?;
            }
            let a = self.li.varast[i];
            let d = &c.vars[i];
            if d.w == 1 {
                continue;
            }
            unsafe {
                let (l, h) = (self.inum(d.lo), self.inum(d.hi));
                let q = self.k(Z3_mk_le(self.z, l, a));
                Z3_solver_assert(self.z, self.li.s, q);
                let q = self.k(Z3_mk_le(self.z, a, h));
                Z3_solver_assert(self.z, self.li.s, q);
            }
        }
        self.lia_calls += 1;
        Some(unsafe { Z3_solver_check_assumptions(self.z, self.li.s, lits.len() as c_uint, lits.as_ptr()) })
    }
    /// Ask the linear-integer solver; None if the query is outside its fragment or too hard.
    fn check_lia(&mut self, c: &Ctx, used: &[E], vars: &[u32]) -> Option<Result<Vec<(u32, u64)>, ()>> {
        let mut asts = Vec::with_capacity(used.len());
        for e in used {
            asts.push(self.itr(c, *e)?);
        }
        if self.li.proxies > 3000 || self.li.once {
            self.fresh_lia(300);
            self.li.once = false;
        }
        let mut r = self.lia_once(c, used, &asts, vars)?;
        if r == 0 {
            // what earlier queries left in the solver slows it down
            self.fresh_lia(20000);
            self.li.once = true;
            r = self.lia_once(c, used, &asts, vars)?;
        }
        match r {
            1 => {
                let mut vs = Vec::with_capacity(vars.len());
                unsafe {
                    let m = Z3_solver_get_model(self.z, self.li.s);
                    assert!(!m.is_null());
                    Z3_model_inc_ref(self.z, m);
                    for v in vars {
                        let i = &c.vars[*v as usize];
                        let mut a: P = std::ptr::null_mut();
                        assert!(Z3_model_eval(self.z, m, self.li.varast[*v as usize], true, &mut a));
                        let x = if i.w == 1 {
                            (Z3_get_bool_value(self.z, a) == 1) as u64
                        } else {
                            let mut x = 0i64;
                            assert!(Z3_get_numeral_int64(self.z, a, &mut x));
                            m64(x as u64, i.w)
                        };
                        vs.push((*v, x));
                    }
                    Z3_model_dec_ref(self.z, m);
                }
                Some(Ok(vs))
            }
            -1 => Some(Err(())),
            _ => None,
        }
    }
    fn proxy_of(&mut self, e: E) -> P {
        match self.proxy.get(&e) {
            Some(p) => *p,
            None => unsafe {
                let nm = cstr(&format!("p{}", e));
                let p = Z3_mk_const(self.z, Z3_mk_string_symbol(self.z, nm.as_ptr()), self.bools);
                let p = self.k(p);
                self.proxy.insert(e, p);
                p
            },
        }
    }
    fn fresh(&mut self) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.z, self.s);
            }
            self.s = if self.simple {
                Z3_mk_simple_solver(self.z)
            } else {
                Z3_mk_solver_for_logic(self.z, Z3_mk_string_symbol(self.z, cstr("QF_BV").as_ptr()))
            };
            Z3_solver_inc_ref(self.z, self.s);
            let p = Z3_mk_params(self.z);
            Z3_params_inc_ref(self.z, p);
            Z3_params_set_uint(self.z, p, Z3_mk_string_symbol(self.z, cstr("timeout").as_ptr()), 60000);
            Z3_solver_set_params(self.z, self.s, p);
        }
        self.in_solver.clear();
        self.doms_done = 0;
        self.proxies = 0;
    }
    /// Drop everything remembered about the expressions of a context.
    pub fn next_stamp(&mut self) -> u64 {
        self.stamp += 1;
        self.stamp
    }

    fn k(&self, a: P) -> P {
        assert!(!a.is_null(), "z3 returned null");
        unsafe { Z3_inc_ref(self.z, a) };
        a
    }
    fn sort(&mut self, w: u32) -> P {
        if self.bvs[w as usize].is_null() {
            let s = unsafe { Z3_mk_bv_sort(self.z, w) };
            self.bvs[w as usize] = self.k(s);
        }
        self.bvs[w as usize]
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 {
                let s = self.sort(w);
                let r = Z3_mk_unsigned_int64(self.z, m64(v as u64, w), s);
                self.k(r)
            } else {
                let l = self.num(v & u64::MAX as u128, 64);
                let h = self.num(v >> 64, w - 64);
                let r = Z3_mk_concat(self.z, h, l);
                self.k(r)
            }
        }
    }
    /// encoded width
    fn nw(c: &Ctx, e: E) -> u32 {
        let n = &c.n[e as usize];
        if n.w > 64 {
            n.w as u32
        } else {
            need(n.lo, n.hi).min(n.w as u32)
        }
    }
    fn to(&mut self, a: P, from: u32, to: u32) -> P {
        unsafe {
            if from == to {
                a
            } else if from < to {
                let r = Z3_mk_sign_ext(self.z, to - from, a);
                self.k(r)
            } else {
                let r = Z3_mk_extract(self.z, to - 1, 0, a);
                self.k(r)
            }
        }
    }
    /// child as a bit-vector of exactly w bits (sign extended or truncated)
    fn at(&mut self, c: &Ctx, e: E, w: u32) -> P {
        let a = self.ast[e as usize];
        if c.w(e) == 1 {
            unsafe {
                let (x, y) = (self.num(u128::MAX, w), self.num(0, w));
                let r = Z3_mk_ite(self.z, a, x, y);
                return self.k(r);
            }
        }
        let f = Self::nw(c, e);
        self.to(a, f, w)
    }
    fn tr(&mut self, c: &Ctx, root: E) -> X<P> {
        if self.ast.len() < c.n.len() {
            self.ast.resize(c.n.len(), std::ptr::null_mut());
        }
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if !self.ast[e as usize].is_null() {
                st.pop();
                continue;
            }
            let n = c.n[e as usize];
            let mut ready = true;
            for (i, x) in [n.a, n.b, n.c].iter().enumerate() {
                if i < arity(n.o) && self.ast[*x as usize].is_null() {
                    st.push(*x);
                    ready = false;
                }
            }
            if ready {
                let r = self.tr1(c, e)?;
                self.ast[e as usize] = self.k(r);
                st.pop();
            }
        }
        Ok(self.ast[root as usize])
    }
    fn tr1(&mut self, c: &Ctx, e: E) -> X<P> {
        let z = self.z;
        let n = c.n[e as usize];
        let w = n.w as u32;
        let nw = Self::nw(c, e);
        let b1 = w == 1;
        unsafe {
            Ok(match n.o {
                O::Const => {
                    if b1 {
                        if n.k == 1 {
                            Z3_mk_true(z)
                        } else {
                            Z3_mk_false(z)
                        }
                    } else {
                        self.num(n.k as u128 | (n.kh as u128) << 64, nw)
                    }
                }
                O::Undef => {
                    if b1 {
                        Z3_mk_false(z)
                    } else {
                        self.num(0, nw)
                    }
                }
                O::Var => {
                    let s = if b1 { self.bools } else { self.sort(nw) };
                    let nm = cstr(&format!("v{}", n.k));
                    let r = Z3_mk_const(z, Z3_mk_string_symbol(z, nm.as_ptr()), s);
                    let i = n.k as usize;
                    if self.varast.len() <= i {
                        self.varast.resize(i + 1, std::ptr::null_mut());
                    }
                    self.varast[i] = self.k(r);
                    r
                }
                O::Not => Z3_mk_not(z, self.ast[n.a as usize]),
                O::And | O::Or | O::Xor if b1 => {
                    let (a, b) = (self.ast[n.a as usize], self.ast[n.b as usize]);
                    match n.o {
                        O::And => Z3_mk_and(z, 2, [a, b].as_ptr()),
                        O::Or => Z3_mk_or(z, 2, [a, b].as_ptr()),
                        _ => Z3_mk_xor(z, a, b),
                    }
                }
                O::Ite => {
                    if b1 {
                        Z3_mk_ite(z, self.ast[n.a as usize], self.ast[n.b as usize], self.ast[n.c as usize])
                    } else {
                        let (a, b) = (self.at(c, n.b, nw), self.at(c, n.c, nw));
                        Z3_mk_ite(z, self.ast[n.a as usize], a, b)
                    }
                }
                O::Add | O::Sub | O::Mul | O::And | O::Or | O::Xor => {
                    let (a, b) = (self.at(c, n.a, nw), self.at(c, n.b, nw));
                    match n.o {
                        O::Add => Z3_mk_bvadd(z, a, b),
                        O::Sub => Z3_mk_bvsub(z, a, b),
                        O::Mul => Z3_mk_bvmul(z, a, b),
                        O::And => Z3_mk_bvand(z, a, b),
                        O::Or => Z3_mk_bvor(z, a, b),
                        _ => Z3_mk_bvxor(z, a, b),
                    }
                }
                O::UDiv | O::SDiv | O::URem | O::SRem | O::Shl | O::LShr | O::AShr => {
                    if b1 {
                        return Err(Unsup("one bit shift or division".into()));
                    }
                    let (a, b) = (self.at(c, n.a, w), self.at(c, n.b, w));
                    let r = match n.o {
                        O::UDiv => Z3_mk_bvudiv(z, a, b),
                        O::SDiv => Z3_mk_bvsdiv(z, a, b),
                        O::URem => Z3_mk_bvurem(z, a, b),
                        O::SRem => Z3_mk_bvsrem(z, a, b),
                        O::Shl => Z3_mk_bvshl(z, a, b),
                        O::LShr => Z3_mk_bvlshr(z, a, b),
                        _ => Z3_mk_bvashr(z, a, b),
                    };
                    let r = self.k(r);
                    self.to(r, w, nw)
                }
                O::ZExt => {
                    let cw = c.w(n.a);
                    if cw == 1 {
                        let (x, y) = (self.num(1, nw), self.num(0, nw));
                        Z3_mk_ite(z, self.ast[n.a as usize], x, y)
                    } else if cw <= 64 && c.n[n.a as usize].lo >= 0 {
                        self.at(c, n.a, nw)
                    } else {
                        let a = self.at(c, n.a, cw);
                        let x = if nw > cw { self.k(Z3_mk_zero_ext(z, nw - cw, a)) } else { a };
                        self.to(x, nw.max(cw), nw)
                    }
                }
                O::SExt => self.at(c, n.a, nw),
                O::Extract => {
                    let lo = n.k as u32;
                    let a = self.at(c, n.a, lo + w);
                    let r = self.k(Z3_mk_extract(z, lo + w - 1, lo, a));
                    if b1 {
                        let one = self.num(1, 1);
                        Z3_mk_eq(z, r, one)
                    } else {
                        self.to(r, w, nw)
                    }
                }
                O::Concat => {
                    let (wa, wb) = (c.w(n.a), c.w(n.b));
                    let (a, b) = (self.at(c, n.a, wa), self.at(c, n.b, wb));
                    let r = self.k(Z3_mk_concat(z, a, b));
                    self.to(r, w, nw)
                }
                O::Eq | O::Ult | O::Slt => {
                    let (x, y) = (self.ast[n.a as usize], self.ast[n.b as usize]);
                    if c.w(n.a) == 1 {
                        match n.o {
                            O::Eq => Z3_mk_iff(z, x, y),
                            O::Ult => {
                                let nx = self.k(Z3_mk_not(z, x));
                                Z3_mk_and(z, 2, [nx, y].as_ptr())
                            }
                            _ => {
                                let ny = self.k(Z3_mk_not(z, y));
                                Z3_mk_and(z, 2, [x, ny].as_ptr())
                            }
                        }
                    } else {
                        let m = Self::nw(c, n.a).max(Self::nw(c, n.b));
                        let (a, b) = (self.at(c, n.a, m), self.at(c, n.b, m));
                        match n.o {
                            O::Eq => Z3_mk_eq(z, a, b),
                            O::Ult => Z3_mk_bvult(z, a, b),
                            _ => Z3_mk_bvslt(z, a, b),
                        }
                    }
                }
                O::I2F => return Err(Unsup("bits of a symbolic float".into())),
                O::Tab => {
                    let t = c.tabs[n.k as usize].clone();
                    let iw = Self::nw(c, n.a);
                    let ix = self.ast[n.a as usize];
                    let mut r = self.num(t[t.len() - 1] as u128, 64);
                    for i in (0..t.len() - 1).rev() {
                        let ki = self.num(i as u128, iw);
                        let q = self.k(Z3_mk_eq(z, ix, ki));
                        let v = self.num(t[i] as u128, 64);
                        r = self.k(Z3_mk_ite(z, q, v, r));
                    }
                    self.to(r, 64, nw)
                }
            })
        }
    }

    fn lit(&mut self, c: &Ctx, e: E) -> X<P> {
        let a = self.tr(c, e)?;
        let p = self.proxy_of(e);
        if self.in_solver.insert(e, ()).is_none() {
            self.proxies += 1;
            unsafe {
                let i = self.k(Z3_mk_implies(self.z, p, a));
                Z3_solver_assert(self.z, self.s, i);
            }
        }
        Ok(p)
    }
    fn doms(&mut self, c: &Ctx) {
        // domains of every variable seen so far
        while self.doms_done < self.varast.len() {
            let i = self.doms_done;
            self.doms_done += 1;
            let v = &c.vars[i];
            let a = self.varast[i];
            if a.is_null() {
                // not translated yet: stop here, retried later
                self.doms_done = i;
                // translate lazily: give it an ast now
                let e = c.var_expr(i as u32);
                if self.ast.len() < c.n.len() {
                    self.ast.resize(c.n.len(), std::ptr::null_mut());
                }
                if self.ast[e as usize].is_null() {
                    if let Ok(r) = self.tr1(c, e) {
                        self.ast[e as usize] = self.k(r);
                    }
                }
                continue;
            }
            if v.w == 1 {
                continue;
            }
            let nw = need(v.lo, v.hi).min(v.w);
            let (fl, fh) = full(nw);
            unsafe {
                if v.lo > fl {
                    let k = self.num(v.lo as u64 as u128, nw);
                    let q = self.k(Z3_mk_bvsle(self.z, k, a));
                    Z3_solver_assert(self.z, self.s, q);
                }
                if v.hi < fh {
                    let k = self.num(v.hi as u64 as u128, nw);
                    let q = self.k(Z3_mk_bvsle(self.z, a, k));
                    Z3_solver_assert(self.z, self.s, q);
                }
            }
        }
    }

    /// Is pc and extra satisfiable? `base` is a model of pc.
    pub fn check(&mut self, c: &mut Ctx, pc: &[E], extra: &[E], base: &Model) -> X<Ans> {
        self.st.queries += 1;
        // slice
        let mut vars: Vec<u32> = Vec::new();
        for e in extra {
            let s = c.support(*e);
            vars.extend_from_slice(&s);
        }
        vars.sort_unstable();
        vars.dedup();
        let mut used: Vec<E> = extra.to_vec();
        let sups: Vec<Rc<Vec<u32>>> = pc.iter().map(|e| c.support(*e)).collect();
        let mut taken = vec![false; pc.len()];
        loop {
            let mut grew = false;
            for i in 0..pc.len() {
                if taken[i] {
                    continue;
                }
                if sups[i].iter().any(|v| vars.binary_search(v).is_ok()) {
                    taken[i] = true;
                    used.push(pc[i]);
                    let before = vars.len();
                    vars.extend_from_slice(&sups[i]);
                    vars.sort_unstable();
                    vars.dedup();
                    if vars.len() > before {
                        grew = true;
                    }
                }
            }
            if !grew {
                break;
            }
        }
        used.sort_unstable();
        used.dedup();
        let key = {
            let (mut a, mut b) = (0x1234567u64, 0x9876543u64);
            for e in &used {
                a = (a.rotate_left(7) ^ *e as u64).wrapping_mul(0x9E3779B97F4A7C15);
                b = (b.rotate_left(11) ^ (*e as u64).wrapping_add(0x51ed27)).wrapping_mul(0xC2B2AE3D27D4EB4F);
            }
            (a, b)
        };
        if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            return Ok(match r.clone() {
                None => Ans::Unsat,
                Some(vs) => self.overlay(c, base, &vs),
            });
        }
        // recent models
        for i in (0..self.pool.len()).rev() {
            let m = self.pool[i].clone();
            if used.iter().all(|e| c.eval(*e, &m.v, m.stamp) == 1) {
                self.st.pooled += 1;
                let vs: Vec<(u32, u64)> =
                    vars.iter().map(|v| (*v, m.v.get(*v as usize).copied().unwrap_or(c.vars[*v as usize].lo as u64))).collect();
                let vs = Rc::new(vs);
                self.cache.insert(key, Some(vs.clone()));
                let k = self.pool.remove(i);
                self.pool.push(k);
                return Ok(self.overlay(c, base, &vs));
            }
        }
        let t0 = std::time::Instant::now();
        if self.use_lia {
            if let Some(r) = self.check_lia(c, &used, &vars) {
                self.st.solver_calls += 1;
                let out = match r {
                    Ok(vs) => self.found(c, key, vs, &used, base)?,
                    Err(()) => {
                        self.st.unsat += 1;
                        self.cache.insert(key, None);
                        if let Some((p, n)) = self.dump.clone() {
                            if self.st.unsat % n == 0 {
                                let mut lits = Vec::new();
                                for e in &used {
                                    lits.push(self.lit(c, *e)?);
                                }
                                self.doms(c);
                                self.dump_query(&p, &lits);
                            }
                        }
                        Ans::Unsat
                    }
                };
                let d = t0.elapsed();
                self.st.time += d;
                self.st.maxq = self.st.maxq.max(d);
                return Ok(out);
            }
        }
        if self.proxies > 4000 {
            self.fresh();
        }
        let mut lits = Vec::with_capacity(used.len());
        for e in &used {
            lits.push(self.lit(c, *e)?);
        }
        self.doms(c);
        self.st.solver_calls += 1;
        let r = unsafe { Z3_solver_check_assumptions(self.z, self.s, lits.len() as c_uint, lits.as_ptr()) };
        let out = match r {
            1 => {
                let mut vs = Vec::with_capacity(vars.len());
                unsafe {
                    let m = Z3_solver_get_model(self.z, self.s);
                    assert!(!m.is_null());
                    Z3_model_inc_ref(self.z, m);
                    for v in &vars {
                        let i = &c.vars[*v as usize];
                        let mut a: P = std::ptr::null_mut();
                        assert!(Z3_model_eval(self.z, m, self.varast[*v as usize], true, &mut a));
                        let x = if i.w == 1 {
                            (Z3_get_bool_value(self.z, a) == 1) as u64
                        } else {
                            let mut x = 0u64;
                            assert!(Z3_get_numeral_uint64(self.z, a, &mut x));
                            m64(sx(x, need(i.lo, i.hi).min(i.w)) as u64, i.w)
                        };
                        vs.push((*v, x));
                    }
                    Z3_model_dec_ref(self.z, m);
                }
                self.found(c, key, vs, &used, base)?
            }
            -1 => {
                self.st.unsat += 1;
                self.cache.insert(key, None);
                if let Some((p, n)) = self.dump.clone() {
                    if self.st.unsat % n == 0 {
                        self.dump_query(&p, &lits);
                    }
                }
                Ans::Unsat
            }
            _ => {
                self.st.unknown += 1;
                Ans::Unknown
            }
        };
        let d = t0.elapsed();
        self.st.time += d;
        self.st.maxq = self.st.maxq.max(d);
        Ok(out)
    }
    fn found(&mut self, c: &mut Ctx, key: (u64, u64), vs: Vec<(u32, u64)>, used: &[E], base: &Model) -> X<Ans> {
        self.st.sat += 1;
        let vs = Rc::new(vs);
        self.cache.insert(key, Some(vs.clone()));
        let a = self.overlay(c, base, &vs);
        if let Ans::Sat(m) = &a {
            // the solver's answer is checked against our own evaluator
            for e in used {
                if c.eval(*e, &m.v, m.stamp) != 1 {
                    return Err(Unsup(format!("internal: model does not satisfy {}", c.show(*e, 6))));
                }
            }
            self.pool.push(m.clone());
            if self.pool.len() > 12 {
                self.pool.remove(0);
            }
        }
        Ok(a)
    }
    fn dump_query(&self, dir: &std::path::Path, lits: &[P]) {
        unsafe {
            let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.z, self.s)).to_string_lossy().into_owned();
            let mut t = String::from("(set-logic QF_BV)\n");
            t.push_str(&s);
            for l in lits {
                // proxies are plain names
                for (e, p) in &self.proxy {
                    if p == l {
                        t.push_str(&format!("(assert p{})\n", e));
                    }
                }
            }
            t.push_str("(check-sat)\n");
            let n = format!("q{:?}_{}.smt2", std::thread::current().id(), self.st.unsat).replace(['(', ')'], "");
            let _ = std::fs::write(dir.join(n), t);
        }
    }
    fn overlay(&mut self, c: &Ctx, base: &Model, vs: &[(u32, u64)]) -> Ans {
        let mut v = (*base.v).clone();
        for (i, x) in vs {
            while v.len() <= *i as usize {
                let d = &c.vars[v.len()];
                v.push(m64(d.lo as u64, d.w));
            }
            v[*i as usize] = *x;
        }
        let stamp = self.next_stamp();
        Ans::Sat(Model { v: Rc::new(v), stamp })
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.z, self.s);
            Z3_del_context(self.z);
        }
    }
}
