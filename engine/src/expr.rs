//! Hash-consed bit-vector expressions with range tracking and rewriting.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum O {
    Const,
    Var,
    Undef,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    ZExt,
    SExt,
    Extract,
    Concat,
    Eq,
    Ult,
    Slt,
    Not,
    Ite,
    /// f64 bit pattern of the signed integer a, exact; k=1: the sign of a zero is unknown
    I2F,
    /// table lookup: f64 bits tab[k][a] where a is an index 0..len
    Tab,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub o: O,
    pub w: u16,
    pub undef: bool,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
    pub kh: u64,
    pub lo: i64,
    pub hi: i64,
    pub h: u64,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub e: E,
    pub idx: u32,
    pub w: u32,
    pub lo: i64,
    pub hi: i64,
}

/// monomials (sorted atoms) with nonzero coefficients
type Poly = std::collections::BTreeMap<Vec<E>, i128>;

pub struct Ctx {
    pub n: Vec<Node>,
    map: FxMap<(O, u16, E, E, E, u64, u64), E>,
    pub vars: Vec<VarInfo>,
    varmap: FxMap<(u32, u32, i64, i64), E>,
    pub tabs: Vec<Vec<u64>>,
    tabmap: HashMap<Vec<u64>, u32>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    memo_model: u64,
    sup: Vec<Option<std::rc::Rc<Vec<u32>>>>,
    affine: FxMap<(E, E), Option<(i64, i64, i64, bool)>>,
    in_poly: bool,
    polys: FxMap<E, Option<std::rc::Rc<Poly>>>,
    hasmul: FxMap<E, bool>,
    pub t: E,
    pub f: E,
}

/// Raised when an expression leaves the encodable fragment.
pub struct Unsup(pub String);
pub type X<T> = Result<T, Unsup>;
fn unsup<T>(s: &str) -> X<T> {
    Err(Unsup(s.to_string()))
}

pub fn full(w: u32) -> (i64, i64) {
    if w == 1 {
        (0, 1)
    } else if w >= 64 {
        (i64::MIN, i64::MAX)
    } else {
        (-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1)
    }
}
pub fn m64(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
pub fn m128(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else if w == 1 {
        (v & 1) as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn sx128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
/// least width of a signed representation of lo..=hi
pub fn need(lo: i64, hi: i64) -> u32 {
    let f = |v: i64| -> u32 {
        if v < 0 {
            65 - (!v).leading_zeros()
        } else {
            65 - v.leading_zeros()
        }
    };
    f(lo).max(f(hi))
}
pub const TWO53: i64 = 1 << 53;

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            n: Vec::new(),
            map: Default::default(),
            vars: Vec::new(),
            varmap: Default::default(),
            tabs: Vec::new(),
            tabmap: Default::default(),
            memo: Vec::new(),
            epoch: 0,
            memo_model: 0,
            sup: Vec::new(),
            affine: Default::default(),
            in_poly: false,
            polys: Default::default(),
            hasmul: Default::default(),
            t: 0,
            f: 0,
        };
        c.f = c.cst(0, 1);
        c.t = c.cst(1, 1);
        c
    }

    fn intern(&mut self, o: O, w: u32, a: E, b: E, c: E, k: u64, kh: u64, lo: i64, hi: i64) -> E {
        let key = (o, w as u16, a, b, c, k, kh);
        if let Some(e) = self.map.get(&key) {
            return *e;
        }
        let mut h = Fx(0x9e3779b97f4a7c15);
        h.write_u64(o as u64);
        h.write_u64(w as u64);
        let mut undef = o == O::Undef;
        let ar = arity(o);
        for (i, x) in [a, b, c].iter().enumerate() {
            if i < ar {
                h.write_u64(self.n[*x as usize].h);
                undef |= self.n[*x as usize].undef;
            }
        }
        h.write_u64(k);
        h.write_u64(kh);
        let (lo, hi) = if lo > hi { full(w) } else { (lo, hi) };
        let e = self.n.len() as E;
        let mut hv = h.finish();
        hv ^= hv >> 29;
        self.n.push(Node { o, w: w as u16, undef, a, b, c, k, kh, lo, hi, h: hv });
        self.map.insert(key, e);
        e
    }

    pub fn cst(&mut self, v: u64, w: u32) -> E {
        debug_assert!(w <= 64);
        let v = m64(v, w);
        let s = sx(v, w);
        self.intern(O::Const, w, 0, 0, 0, v, 0, s, s)
    }
    pub fn cst128(&mut self, v: u128, w: u32) -> E {
        if w <= 64 {
            return self.cst(v as u64, w);
        }
        let v = m128(v, w);
        self.intern(O::Const, w, 0, 0, 0, v as u64, (v >> 64) as u64, 0, -1)
    }
    pub fn undef(&mut self, w: u32) -> E {
        let (lo, hi) = full(w.min(64));
        self.intern(O::Undef, w, 0, 0, 0, 0, 0, lo, hi)
    }
    pub fn var(&mut self, idx: u32, w: u32, lo: i64, hi: i64) -> E {
        if let Some(e) = self.varmap.get(&(idx, w, lo, hi)) {
            return *e;
        }
        let id = self.vars.len() as u64;
        self.vars.push(VarInfo { e: 0, idx, w, lo, hi });
        let kh = {
            let mut h = Fx(77);
            h.write_u64(idx as u64);
            h.write_u64(lo as u64);
            h.write_u64(hi as u64);
            h.finish()
        };
        let e = self.intern(O::Var, w, 0, 0, 0, id, kh, lo, hi);
        // the hash must not depend on the creation order of variables
        self.n[e as usize].h = kh;
        self.vars[id as usize].e = e;
        self.varmap.insert((idx, w, lo, hi), e);
        e
    }

    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    #[inline]
    pub fn rng(&self, e: E) -> (i64, i64) {
        let n = &self.n[e as usize];
        (n.lo, n.hi)
    }
    #[inline]
    pub fn kst(&self, e: E) -> Option<u64> {
        let n = &self.n[e as usize];
        if n.o == O::Const && n.w <= 64 {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn kst128(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.o == O::Const {
            Some(n.k as u128 | (n.kh as u128) << 64)
        } else {
            None
        }
    }
    fn is_k(&self, e: E) -> bool {
        self.n[e as usize].o == O::Const
    }
    fn clamp(&self, lo: i128, hi: i128, w: u32) -> (i64, i64) {
        let (l, h) = full(w);
        if lo >= l as i128 && hi <= h as i128 {
            (lo as i64, hi as i64)
        } else {
            (l, h)
        }
    }
    /// nested ite with only constant leaves
    fn cite(&self, e: E, d: u32) -> bool {
        let n = &self.n[e as usize];
        match n.o {
            O::Const => true,
            O::Ite if d > 0 => self.cite(n.b, d - 1) && self.cite(n.c, d - 1),
            _ => false,
        }
    }
    fn is_ite(&self, e: E) -> bool {
        self.n[e as usize].o == O::Ite
    }
    fn dist2(&mut self, e: E, other: E, f: &mut dyn FnMut(&mut Ctx, E, E) -> E, left: bool) -> E {
        let n = self.n[e as usize];
        if n.o == O::Ite {
            let x = self.dist2(n.b, other, f, left);
            let y = self.dist2(n.c, other, f, left);
            self.ite(n.a, x, y)
        } else if left {
            f(self, e, other)
        } else {
            f(self, other, e)
        }
    }
    fn try_dist(&mut self, a: E, b: E, f: &mut dyn FnMut(&mut Ctx, E, E) -> E) -> Option<E> {
        if self.is_ite(a) && self.is_k(b) && self.cite(a, 4) {
            return Some(self.dist2(a, b, f, true));
        }
        if self.is_k(a) && self.is_ite(b) && self.cite(b, 4) {
            return Some(self.dist2(b, a, f, false));
        }
        None
    }
    fn ord(&self, a: E, b: E) -> (E, E) {
        // constants to the right, otherwise by structural hash
        let (na, nb) = (&self.n[a as usize], &self.n[b as usize]);
        if na.o == O::Const && nb.o != O::Const {
            return (b, a);
        }
        if nb.o == O::Const {
            return (a, b);
        }
        if na.h > nb.h {
            (b, a)
        } else {
            (a, b)
        }
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = self.ord(a, b);
        if let Some(kb) = self.kst128(b) {
            if let Some(ka) = self.kst128(a) {
                return self.cst128(ka.wrapping_add(kb), w);
            }
            if kb == 0 {
                return a;
            }
            let na = self.n[a as usize];
            if na.o == O::Add && self.is_k(na.b) {
                let k2 = self.kst128(na.b).unwrap().wrapping_add(kb);
                let k2 = self.cst128(k2, w);
                return self.add(na.a, k2);
            }
        }
        if let Some(r) = self.try_dist(a, b, &mut |c, x, y| c.add(x, y)) {
            return r;
        }
        let nb = self.n[b as usize];
        if nb.o == O::Sub && nb.b == a {
            return nb.a;
        }
        let na = self.n[a as usize];
        if na.o == O::Sub && na.b == b {
            return na.a;
        }
        let ((al, ah), (bl, bh)) = (self.rng(a), self.rng(b));
        let (lo, hi) = if w <= 64 {
            self.clamp(al as i128 + bl as i128, ah as i128 + bh as i128, w)
        } else {
            (0, -1)
        };
        self.intern(O::Add, w, a, b, 0, 0, 0, lo, hi)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if a == b {
            return self.cst128(0, w);
        }
        if let Some(kb) = self.kst128(b) {
            let nk = self.cst128((kb as i128).wrapping_neg() as u128, w);
            return self.add(a, nk);
        }
        if let Some(r) = self.try_dist(a, b, &mut |c, x, y| c.sub(x, y)) {
            return r;
        }
        let na = self.n[a as usize];
        if na.o == O::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        let ((al, ah), (bl, bh)) = (self.rng(a), self.rng(b));
        let (lo, hi) = if w <= 64 {
            self.clamp(al as i128 - bh as i128, ah as i128 - bl as i128, w)
        } else {
            (0, -1)
        };
        self.intern(O::Sub, w, a, b, 0, 0, 0, lo, hi)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = self.ord(a, b);
        if let Some(kb) = self.kst128(b) {
            if let Some(ka) = self.kst128(a) {
                return self.cst128(ka.wrapping_mul(kb), w);
            }
            if kb == 0 {
                return b;
            }
            if kb == 1 {
                return a;
            }
        }
        if let Some(r) = self.try_dist(a, b, &mut |c, x, y| c.mul(x, y)) {
            return r;
        }
        let ((al, ah), (bl, bh)) = (self.rng(a), self.rng(b));
        let (lo, hi) = if w <= 64 {
            let p = [
                al as i128 * bl as i128,
                al as i128 * bh as i128,
                ah as i128 * bl as i128,
                ah as i128 * bh as i128,
            ];
            let (mut l, h) = (*p.iter().min().unwrap(), *p.iter().max().unwrap());
            if a == b {
                l = l.max(0);
            }
            self.clamp(l, h, w)
        } else {
            (0, -1)
        };
        self.intern(O::Mul, w, a, b, 0, 0, 0, lo, hi)
    }
    pub fn div(&mut self, o: O, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(ka), Some(kb)) = (self.kst128(a), self.kst128(b)) {
            let (sa, sb) = (sx128(ka, w), sx128(kb, w));
            if kb != 0 {
                let r = match o {
                    O::UDiv => ka / kb,
                    O::URem => ka % kb,
                    O::SDiv => sa.wrapping_div(sb) as u128,
                    _ => sa.wrapping_rem(sb) as u128,
                };
                return self.cst128(r, w);
            }
        }
        if let Some(kb) = self.kst(b) {
            if kb == 1 {
                return match o {
                    O::UDiv | O::SDiv => a,
                    _ => self.cst128(0, w),
                };
            }
            if kb.is_power_of_two() && matches!(o, O::UDiv | O::URem) {
                let k = kb.trailing_zeros();
                if o == O::UDiv {
                    return self.lshr_k(a, k);
                }
                let x = self.extract(a, 0, k);
                return self.zext(x, w);
            }
        }
        let ((al, ah), (bl, bh)) = (self.rng(a), self.rng(b));
        let (mut lo, mut hi) = (0, -1);
        if w <= 64 && al >= 0 && bl > 0 {
            match o {
                O::UDiv | O::SDiv => {
                    lo = al / bh;
                    hi = ah / bl;
                }
                _ => {
                    lo = 0;
                    hi = ah.min(bh - 1);
                }
            }
        }
        self.intern(o, w, a, b, 0, 0, 0, lo, hi)
    }

    pub fn not(&mut self, a: E) -> E {
        debug_assert!(self.w(a) == 1);
        let n = self.n[a as usize];
        match n.o {
            O::Const => self.cst(n.k ^ 1, 1),
            O::Not => n.a,
            _ => self.intern(O::Not, 1, a, 0, 0, 0, 0, 0, 1),
        }
    }

    /// pieces from least significant: (expr or None for zero, width)
    fn segs(&self, e: E, out: &mut Vec<(Option<(E, u32)>, u32)>) {
        let n = &self.n[e as usize];
        match n.o {
            O::Const if n.k == 0 && n.kh == 0 => out.push((None, n.w as u32)),
            O::Concat => {
                self.segs(n.b, out);
                self.segs(n.a, out);
            }
            O::ZExt => {
                self.segs(n.a, out);
                out.push((None, n.w as u32 - self.w(n.a)));
            }
            O::SExt if self.n[n.a as usize].lo >= 0 && self.w(n.a) <= 64 => {
                self.segs(n.a, out);
                out.push((None, n.w as u32 - self.w(n.a)));
            }
            _ => out.push((Some((e, 0)), n.w as u32)),
        }
    }
    fn disjoint_or(&mut self, a: E, b: E) -> Option<E> {
        let (mut sa, mut sb) = (Vec::new(), Vec::new());
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        if sa.len() == 1 && sb.len() == 1 {
            return None;
        }
        let mut out: Vec<(Option<(E, u32)>, u32)> = Vec::new();
        let (mut i, mut j) = (0, 0);
        let (mut ra, mut rb) = (sa[0], sb[0]);
        loop {
            let m = ra.1.min(rb.1);
            let pick = match (ra.0, rb.0) {
                (None, None) => None,
                (Some(x), None) => Some(x),
                (None, Some(x)) => Some(x),
                _ => return None,
            };
            out.push((pick, m));
            let adv = |s: &mut (Option<(E, u32)>, u32)| {
                s.1 -= m;
                if let Some((_, o)) = &mut s.0 {
                    *o += m;
                }
            };
            adv(&mut ra);
            adv(&mut rb);
            if ra.1 == 0 {
                i += 1;
                if i == sa.len() {
                    break;
                }
                ra = sa[i];
            }
            if rb.1 == 0 {
                j += 1;
                if j == sb.len() {
                    break;
                }
                rb = sb[j];
            }
        }
        let mut r: Option<E> = None;
        for (p, m) in out {
            let x = match p {
                None => self.cst128(0, m),
                Some((e, o)) => self.extract(e, o, m),
            };
            r = Some(match r {
                None => x,
                Some(lo) => self.concat(x, lo),
            });
        }
        r
    }

    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = self.ord(a, b);
        if a == b {
            return a;
        }
        if let Some(kb) = self.kst128(b) {
            if let Some(ka) = self.kst128(a) {
                return self.cst128(ka & kb, w);
            }
            if kb == 0 {
                return b;
            }
            let ones = m128(u128::MAX, w);
            if kb == ones {
                return a;
            }
            if w > 1 {
                if (kb & (kb + 1)) == 0 {
                    let k = kb.count_ones();
                    let x = self.extract(a, 0, k);
                    return self.zext(x, w);
                }
                let inv = ones ^ kb;
                if (inv & (inv + 1)) == 0 {
                    let k = inv.count_ones();
                    let x = self.extract(a, k, w - k);
                    let z = self.cst128(0, k);
                    return self.concat(x, z);
                }
            }
        }
        if w == 1 {
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if (na.o == O::Not && na.a == b) || (nb.o == O::Not && nb.a == a) {
                return self.f;
            }
            return self.intern(O::And, 1, a, b, 0, 0, 0, 0, 1);
        }
        if let Some(r) = self.try_dist(a, b, &mut |c, x, y| c.and(x, y)) {
            return r;
        }
        let ((al, ah), (bl, bh)) = (self.rng(a), self.rng(b));
        let (mut lo, mut hi) = (0, -1);
        if w <= 64 {
            if al >= 0 && bl >= 0 {
                hi = ah.min(bh);
            } else if al >= 0 {
                hi = ah;
            } else if bl >= 0 {
                hi = bh;
            } else {
                lo = 0;
                hi = -1;
            }
        }
        if hi < lo {
            lo = 0;
            hi = -1;
        }
        self.intern(O::And, w, a, b, 0, 0, 0, lo, hi)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = self.ord(a, b);
        if a == b {
            return a;
        }
        if let Some(kb) = self.kst128(b) {
            if let Some(ka) = self.kst128(a) {
                return self.cst128(ka | kb, w);
            }
            if kb == 0 {
                return a;
            }
            if kb == m128(u128::MAX, w) {
                return b;
            }
        }
        if w == 1 {
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if (na.o == O::Not && na.a == b) || (nb.o == O::Not && nb.a == a) {
                return self.t;
            }
            return self.intern(O::Or, 1, a, b, 0, 0, 0, 0, 1);
        }
        if let Some(r) = self.try_dist(a, b, &mut |c, x, y| c.or(x, y)) {
            return r;
        }
        if let Some(r) = self.disjoint_or(a, b) {
            return r;
        }
        let ((al, ah), (bl, bh)) = (self.rng(a), self.rng(b));
        let (mut lo, mut hi) = (0, -1);
        if w <= 64 && al >= 0 && bl >= 0 {
            let nb = need(0, ah.max(bh)) - 1;
            lo = al.max(bl);
            hi = if nb >= 63 { i64::MAX } else { (1i64 << nb) - 1 };
        }
        self.intern(O::Or, w, a, b, 0, 0, 0, lo, hi)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = self.ord(a, b);
        if a == b {
            return self.cst128(0, w);
        }
        if let Some(kb) = self.kst128(b) {
            if let Some(ka) = self.kst128(a) {
                return self.cst128(ka ^ kb, w);
            }
            if kb == 0 {
                return a;
            }
            if w == 1 {
                return self.not(a);
            }
            if kb == m128(u128::MAX, w) && w <= 64 {
                // bitwise complement: -1 - x
                let m = self.cst128(u128::MAX, w);
                return self.sub_raw(m, a);
            }
        }
        if w == 1 {
            let na = self.n[a as usize];
            if na.o == O::Not {
                let x = self.xor(na.a, b);
                return self.not(x);
            }
            let nb = self.n[b as usize];
            if nb.o == O::Not {
                let x = self.xor(a, nb.a);
                return self.not(x);
            }
            return self.intern(O::Xor, 1, a, b, 0, 0, 0, 0, 1);
        }
        if let Some(r) = self.try_dist(a, b, &mut |c, x, y| c.xor(x, y)) {
            return r;
        }
        if let Some(r) = self.disjoint_or(a, b) {
            return r;
        }
        let ((al, ah), (bl, bh)) = (self.rng(a), self.rng(b));
        let (mut lo, mut hi) = (0, -1);
        if w <= 64 && al >= 0 && bl >= 0 {
            let nb = need(0, ah.max(bh)) - 1;
            hi = if nb >= 63 { i64::MAX } else { (1i64 << nb) - 1 };
            lo = 0;
        }
        self.intern(O::Xor, w, a, b, 0, 0, 0, lo, hi)
    }
    fn sub_raw(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.is_k(b) {
            return self.sub(a, b);
        }
        if let Some(r) = self.try_dist(a, b, &mut |c, x, y| c.sub(x, y)) {
            return r;
        }
        let ((al, ah), (bl, bh)) = (self.rng(a), self.rng(b));
        let (lo, hi) = self.clamp(al as i128 - bh as i128, ah as i128 - bl as i128, w);
        self.intern(O::Sub, w, a, b, 0, 0, 0, lo, hi)
    }

    fn lshr_k(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.cst128(0, w);
        }
        let x = self.extract(a, k, w - k);
        self.zext(x, w)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.kst128(b) {
            if k >= w as u128 {
                return self.cst128(0, w);
            }
            let k = k as u32;
            if k == 0 {
                return a;
            }
            if let Some(ka) = self.kst128(a) {
                return self.cst128(ka << k, w);
            }
            if self.cite(a, 4) {
                return self.dist2(a, b, &mut |c, x, y| c.shl(x, y), true);
            }
            let x = self.extract(a, 0, w - k);
            let z = self.cst128(0, k);
            return self.concat(x, z);
        }
        if let Some(r) = self.try_dist(a, b, &mut |c, x, y| c.shl(x, y)) {
            return r;
        }
        self.intern(O::Shl, w, a, b, 0, 0, 0, 0, -1)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.kst128(b) {
            if let Some(ka) = self.kst128(a) {
                return if k >= w as u128 { self.cst128(0, w) } else { self.cst128(ka >> k, w) };
            }
            return self.lshr_k(a, k.min(1000) as u32);
        }
        if let Some(r) = self.try_dist(a, b, &mut |c, x, y| c.lshr(x, y)) {
            return r;
        }
        let (al, ah) = self.rng(a);
        let (lo, hi) = if al >= 0 { (0, ah) } else { (0, -1) };
        self.intern(O::LShr, w, a, b, 0, 0, 0, lo, hi)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.kst128(b) {
            let k = k.min(w as u128 - 1) as u32;
            if let Some(ka) = self.kst128(a) {
                return self.cst128((sx128(ka, w) >> k) as u128, w);
            }
            if k == 0 {
                return a;
            }
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        self.intern(O::AShr, w, a, b, 0, 0, 0, 0, -1)
    }

    fn resize(&mut self, x: E, w: u32) -> E {
        let xw = self.w(x);
        if xw == w {
            x
        } else if xw > w {
            self.extract(x, 0, w)
        } else {
            self.sext(x, w)
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = self.n[a as usize];
        if let Some(k) = self.kst128(a) {
            return self.cst128(k, w);
        }
        if aw == 1 {
            let one = self.cst128(1, w);
            let zero = self.cst128(0, w);
            return self.ite(a, one, zero);
        }
        if n.o == O::ZExt {
            return self.zext(n.a, w);
        }
        if n.o == O::Ite && self.cite(a, 4) {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        if n.o == O::Extract && n.k == 0 {
            let xw = self.w(n.a);
            if xw <= 64 {
                let (l, h) = self.rng(n.a);
                if l >= 0 && (aw >= 63 || h < (1i64 << aw)) {
                    return self.resize(n.a, w);
                }
            }
        }
        if aw <= 64 && n.lo >= 0 && w <= 64 {
            return self.sext(a, w);
        }
        let (lo, hi) = if w <= 64 {
            if aw < 63 {
                (0, (1i64 << aw) - 1)
            } else {
                (0, i64::MAX)
            }
        } else {
            (0, -1)
        };
        self.intern(O::ZExt, w, a, 0, 0, 0, 0, lo, hi)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = self.n[a as usize];
        if let Some(k) = self.kst128(a) {
            return self.cst128(sx128(k, aw) as u128, w);
        }
        if aw == 1 {
            let one = self.cst128(u128::MAX, w);
            let zero = self.cst128(0, w);
            return self.ite(a, one, zero);
        }
        if n.o == O::SExt {
            return self.sext(n.a, w);
        }
        if n.o == O::ZExt {
            return self.zext(n.a, w);
        }
        if n.o == O::Ite && self.cite(a, 4) {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        if n.o == O::Extract && n.k == 0 && self.w(n.a) <= 64 {
            let (l, h) = self.rng(n.a);
            let (fl, fh) = full(aw);
            if l >= fl && h <= fh {
                return self.resize(n.a, w);
            }
        }
        if w > 64 {
            if aw <= 64 && n.lo >= 0 {
                return self.intern(O::ZExt, w, a, 0, 0, 0, 0, 0, -1);
            }
            return self.intern(O::SExt, w, a, 0, 0, 0, 0, 0, -1);
        }
        self.intern(O::SExt, w, a, 0, 0, 0, 0, n.lo, n.hi)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        let n = self.n[a as usize];
        match n.o {
            O::Const => {
                let v = self.kst128(a).unwrap();
                return self.cst128(v >> lo, w);
            }
            O::Undef => return self.undef(w),
            O::Extract => return self.extract(n.a, n.k as u32 + lo, w),
            O::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            O::ZExt | O::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let zero_hi = n.o == O::ZExt || (iw <= 64 && self.n[n.a as usize].lo >= 0);
                if lo >= iw && zero_hi {
                    return self.cst128(0, w);
                }
                if lo < iw && iw < lo + w {
                    let x = self.extract(n.a, lo, iw - lo);
                    return if n.o == O::ZExt || zero_hi { self.zext(x, w) } else { self.sext(x, w) };
                }
            }
            O::Ite if self.cite(a, 4) => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            O::And | O::Or | O::Xor if w == 1 || lo == 0 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.o {
                    O::And => self.and(x, y),
                    O::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            _ => {}
        }
        let (mut rl, mut rh) = (0, -1);
        if aw <= 64 && w <= 64 {
            if lo == 0 {
                let (fl, fh) = full(w);
                if w > 1 && n.lo >= fl && n.hi <= fh {
                    rl = n.lo;
                    rh = n.hi;
                }
            } else if n.lo >= 0 {
                // zero beyond
                let h = n.hi >> lo;
                if h == 0 {
                    return self.cst(0, w);
                }
                let (fl, fh) = full(w);
                if w > 1 && h <= fh && fl <= 0 {
                    rl = 0;
                    rh = h;
                }
            }
        }
        self.intern(O::Extract, w, a, 0, 0, lo as u64, 0, rl, rh)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(h), Some(l)) = (self.kst128(hi), self.kst128(lo)) {
            return self.cst128(h << lw | l, w);
        }
        let (nh, nl) = (self.n[hi as usize], self.n[lo as usize]);
        if nh.o == O::Undef && nl.o == O::Undef {
            return self.undef(w);
        }
        if nh.o == O::Concat {
            let l2 = self.concat(nh.b, lo);
            return self.concat(nh.a, l2);
        }
        if nh.o == O::Const && nh.k == 0 && nh.kh == 0 {
            return self.zext(lo, w);
        }
        let piece = |n: &Node, e: E, w: u32| -> (E, u32, u32) {
            if n.o == O::Extract {
                (n.a, n.k as u32, w)
            } else {
                (e, 0, w)
            }
        };
        let ph = piece(&nh, hi, hw);
        if nh.o == O::Extract {
            let pl = piece(&nl, lo, lw);
            if ph.0 == pl.0 && pl.1 + pl.2 == ph.1 {
                return self.extract(ph.0, pl.1, pl.2 + ph.2);
            }
            if nl.o == O::Concat {
                let nla = self.n[nl.a as usize];
                let law = self.w(nl.a);
                let pl = piece(&nla, nl.a, law);
                if ph.0 == pl.0 && pl.1 + pl.2 == ph.1 {
                    let m = self.extract(ph.0, pl.1, pl.2 + ph.2);
                    return self.concat(m, nl.b);
                }
            }
        }
        let (mut rl, mut rh) = (0, -1);
        if w <= 64 && hw > 1 {
            let (a, b) = self.rng(hi);
            let (ll, lh) = if let Some(k) = self.kst(lo) {
                (k as i128, k as i128)
            } else {
                (0i128, (1i128 << lw) - 1)
            };
            let r = self.clamp(((a as i128) << lw) + ll, ((b as i128) << lw) + lh, w);
            rl = r.0;
            rh = r.1;
        }
        self.intern(O::Concat, w, hi, lo, 0, 0, 0, rl, rh)
    }

    /// strips value-preserving extensions and truncations (signed reading)
    fn strip(&self, mut e: E) -> E {
        loop {
            let n = &self.n[e as usize];
            if n.w > 64 {
                return e;
            }
            match n.o {
                O::SExt if self.w(n.a) > 1 => e = n.a,
                O::Extract if n.k == 0 && self.w(n.a) <= 64 && n.w > 1 => {
                    let (l, h) = self.rng(n.a);
                    let (fl, fh) = full(n.w as u32);
                    if l >= fl && h <= fh {
                        e = n.a;
                    } else {
                        return e;
                    }
                }
                _ => return e,
            }
        }
    }
    fn common(&mut self, a: E, b: E) -> (E, E) {
        let (mut x, mut y) = (self.strip(a), self.strip(b));
        // constants adapt to the other side
        if let Some(k) = self.kst(y) {
            let s = sx(k, self.w(y));
            let w = self.w(x);
            let (fl, fh) = full(w);
            if w > 1 && s >= fl && s <= fh {
                y = self.cst(s as u64, w);
                return (x, y);
            }
        }
        if let Some(k) = self.kst(x) {
            let s = sx(k, self.w(x));
            let w = self.w(y);
            let (fl, fh) = full(w);
            if w > 1 && s >= fl && s <= fh {
                x = self.cst(s as u64, w);
                return (x, y);
            }
        }
        let w = self.w(x).max(self.w(y));
        let x2 = self.sext(x, w);
        let y2 = self.sext(y, w);
        (x2, y2)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.t;
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        if let (Some(x), Some(y)) = (self.kst128(a), self.kst128(b)) {
            return if x == y { self.t } else { self.f };
        }
        if w <= 64 {
            let ((al, ah), (bl, bh)) = (self.rng(a), self.rng(b));
            if ah < bl || bh < al {
                return self.f;
            }
        }
        let (a, b) = if w <= 64 && w > 1 { self.common(a, b) } else { (a, b) };
        if a == b {
            return self.t;
        }
        let (a, b) = self.ord(a, b);
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        if let Some(kb) = self.kst128(b) {
            match na.o {
                O::ZExt => {
                    let iw = self.w(na.a);
                    if kb >> iw != 0 {
                        return self.f;
                    }
                    let k = self.cst128(kb, iw);
                    return self.eq(na.a, k);
                }
                O::Concat => {
                    let lw = self.w(na.b);
                    let hw = self.w(na.a);
                    let kh = self.cst128(kb >> lw, hw);
                    let kl = self.cst128(kb, lw);
                    let x = self.eq(na.a, kh);
                    if x == self.f {
                        return x;
                    }
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                O::Add if self.is_k(na.b) => {
                    let k = self.kst128(na.b).unwrap();
                    let d = self.cst128(kb.wrapping_sub(k), self.w(a));
                    return self.eq(na.a, d);
                }
                O::Sub if kb == 0 => return self.eq(na.a, na.b),
                O::Xor if kb == 0 => return self.eq(na.a, na.b),
                O::Sub if self.is_k(na.a) => {
                    let k = self.kst128(na.a).unwrap();
                    let d = self.cst128(k.wrapping_sub(kb), self.w(a));
                    return self.eq(na.b, d);
                }
                O::Or if kb == 0 => {
                    let z = self.cst128(0, self.w(a));
                    let x = self.eq(na.a, z);
                    let y = self.eq(na.b, z);
                    return self.and(x, y);
                }
                O::Ite if self.cite(a, 6) || self.is_k(na.b) || self.is_k(na.c) => {
                    let x = self.eq(na.b, b);
                    let y = self.eq(na.c, b);
                    return self.ite(na.a, x, y);
                }
                _ => {}
            }
        } else if na.o == O::Concat && nb.o == O::Concat && self.w(na.b) == self.w(nb.b) {
            let x = self.eq(na.a, nb.a);
            let y = self.eq(na.b, nb.b);
            return self.and(x, y);
        }
        if w > 1 && w <= 64 {
            if let Some(r) = self.poly_cmp(a, b, true) {
                return r;
            }
        }
        self.intern(O::Eq, 1, a, b, 0, 0, 0, 0, 1)
    }
    /// whether e is a sum with a product of two non-constants in it
    fn has_mul(&mut self, e: E) -> bool {
        if let Some(r) = self.hasmul.get(&e) {
            return *r;
        }
        let n = self.n[e as usize];
        let r = match n.o {
            O::Mul => true,
            O::Add | O::Sub => self.has_mul(n.a) || self.has_mul(n.b),
            O::SExt | O::ZExt | O::Extract => self.has_mul(n.a),
            _ => false,
        };
        self.hasmul.insert(e, r);
        r
    }
    /// e as a polynomial over the integers (no wrap-around anywhere in it)
    fn poly(&mut self, e: E) -> Option<std::rc::Rc<Poly>> {
        if let Some(r) = self.polys.get(&e) {
            return r.clone();
        }
        let r = self.poly_(e).map(std::rc::Rc::new);
        self.polys.insert(e, r.clone());
        r
    }
    fn poly_(&mut self, e0: E) -> Option<Poly> {
        let e = self.strip(e0);
        if e != e0 {
            return self.poly(e).map(|p| (*p).clone());
        }
        let n = self.n[e as usize];
        let w = n.w as u32;
        if w > 64 || w == 1 {
            return None;
        }
        let mut p = Poly::new();
        match n.o {
            O::Const => {
                let k = sx(n.k, w);
                if k != 0 {
                    p.insert(Vec::new(), k as i128);
                }
                return Some(p);
            }
            O::ZExt if self.w(n.a) > 1 && self.rng(n.a).0 >= 0 => return self.poly(n.a).map(|p| (*p).clone()),
            O::Add | O::Sub | O::Mul => {
                let ((al, ah), (bl, bh)) = (self.rng(n.a), self.rng(n.b));
                let (al, ah, bl, bh) = (al as i128, ah as i128, bl as i128, bh as i128);
                let (lo, hi) = match n.o {
                    O::Add => (al + bl, ah + bh),
                    O::Sub => (al - bh, ah - bl),
                    _ => {
                        let p = [al * bl, al * bh, ah * bl, ah * bh];
                        (*p.iter().min().unwrap(), *p.iter().max().unwrap())
                    }
                };
                let (fl, fh) = full(w);
                if lo >= fl as i128 && hi <= fh as i128 {
                    let (x, y) = (self.poly(n.a)?, self.poly(n.b)?);
                    if n.o == O::Mul {
                        if x.len() * y.len() > 256 {
                            return None;
                        }
                        for (m1, c1) in x.iter() {
                            for (m2, c2) in y.iter() {
                                let mut m: Vec<E> = m1.iter().chain(m2.iter()).cloned().collect();
                                if m.len() > 4 {
                                    return None;
                                }
                                m.sort();
                                let c = c1.checked_mul(*c2)?;
                                let z = p.entry(m).or_insert(0);
                                *z = z.checked_add(c)?;
                            }
                        }
                    } else {
                        p = (*x).clone();
                        for (m, c) in y.iter() {
                            let c = if n.o == O::Sub { -*c } else { *c };
                            let z = p.entry(m.clone()).or_insert(0);
                            *z = z.checked_add(c)?;
                        }
                    }
                    p.retain(|_, c| *c != 0);
                    if p.len() > 64 {
                        return None;
                    }
                    return Some(p);
                }
            }
            _ => {}
        }
        p.insert(vec![e], 1);
        Some(p)
    }
    /// a = b or a < b where products cancel out
    fn poly_cmp(&mut self, a: E, b: E, eq: bool) -> Option<E> {
        if self.in_poly || !self.has_mul(a) && !self.has_mul(b) {
            return None;
        }
        let (x, y) = (self.poly(a)?, self.poly(b)?);
        let mut d = (*x).clone();
        for (m, c) in y.iter() {
            let z = d.entry(m.clone()).or_insert(0);
            *z = z.checked_sub(*c)?;
        }
        d.retain(|_, c| *c != 0);
        if d.is_empty() {
            return Some(if eq { self.t } else { self.f });
        }
        if d.keys().any(|m| m.len() > 1) {
            return None;
        }
        let at: Vec<E> = d.keys().flatten().cloned().collect();
        if at.iter().any(|e| self.has_mul(*e)) {
            return None;
        }
        let gcd = |a: i128, b: i128| {
            let (mut a, mut b) = (a.abs(), b.abs());
            while b != 0 {
                let t = a % b;
                a = b;
                b = t;
            }
            a
        };
        let mut k = d.remove(&Vec::new()).unwrap_or(0);
        let mut g = 0;
        for c in d.values() {
            g = gcd(g, *c);
        }
        if g == 0 {
            let r = if eq { k == 0 } else { k < 0 };
            return Some(if r { self.t } else { self.f });
        }
        if eq {
            if k % g != 0 {
                return Some(self.f);
            }
            k /= g;
        } else {
            // g s + k < 0  ==  s < -k/g  ==  s < ceil(-k/g)  ==  s + floor(k/g) < 0
            k = k.div_euclid(g);
        }
        let (mut lp, mut rp) = (Vec::new(), Vec::new());
        for (m, c) in d.iter() {
            let c = c / g;
            if c > 0 {
                lp.push((m[0], c));
            } else {
                rp.push((m[0], -c));
            }
        }
        let (lk, rk) = if k > 0 { (k, 0) } else { (0, -k) };
        // every partial sum has to fit 64 bits
        let mut top = 1;
        for (ps, k) in [(&lp, lk), (&rp, rk)] {
            let mut t = k;
            for (e, c) in ps.iter() {
                let (lo, hi) = self.rng(*e);
                let m = (lo as i128).abs().max((hi as i128).abs());
                t = t.checked_add(m.checked_mul(*c)?)?;
            }
            if t > i64::MAX as i128 {
                return None;
            }
            top = top.max(t as i64);
        }
        let width = need(-top, top).max(2);
        let side = |ps: &Vec<(E, i128)>, k: i128, c: &mut Ctx| {
            let mut ps = ps.clone();
            ps.sort_by_key(|(e, _)| c.n[*e as usize].h);
            let mut r = c.cst(0, width);
            for (e, q) in ps {
                let x = c.resize(e, width);
                let q = c.cst(q as i64 as u64, width);
                let m = c.mul(x, q);
                r = c.add(r, m);
            }
            let k = c.cst(k as i64 as u64, width);
            c.add(r, k)
        };
        let l = side(&lp, lk, self);
        let r = side(&rp, rk, self);
        self.in_poly = true;
        let o = if eq { self.eq(l, r) } else { self.slt(l, r) };
        self.in_poly = false;
        Some(o)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.f;
        }
        if w == 1 {
            // -1 < 0
            let nb = self.not(b);
            return self.and(a, nb);
        }
        if w <= 64 {
            let ((al, ah), (bl, bh)) = (self.rng(a), self.rng(b));
            if ah < bl {
                return self.t;
            }
            if al >= bh {
                return self.f;
            }
            let (a, b) = self.common(a, b);
            if a == b {
                return self.f;
            }
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if na.o == O::Ite && self.is_k(b) && (self.cite(a, 6) || self.is_k(na.b) || self.is_k(na.c)) {
                let x = self.slt(na.b, b);
                let y = self.slt(na.c, b);
                return self.ite(na.a, x, y);
            }
            if nb.o == O::Ite && self.is_k(a) && (self.cite(b, 6) || self.is_k(nb.b) || self.is_k(nb.c)) {
                let x = self.slt(a, nb.b);
                let y = self.slt(a, nb.c);
                return self.ite(nb.a, x, y);
            }
            let ((al, ah), (bl, bh)) = (self.rng(a), self.rng(b));
            if ah < bl {
                return self.t;
            }
            if al >= bh {
                return self.f;
            }
            // x < k+1 with x >= k  is x == k ; k-1 < x etc: normal form for one-sided cases
            if let Some(kb) = self.kst(b) {
                let k = sx(kb, self.w(b));
                if al == k - 1 {
                    let c = self.cst(al as u64, self.w(a));
                    return self.eq(a, c);
                }
            }
            if let Some(ka) = self.kst(a) {
                let k = sx(ka, self.w(a));
                if bh == k + 1 {
                    let c = self.cst(bh as u64, self.w(b));
                    return self.eq(b, c);
                }
                // k < b  ==  not (b < k+1)
                let c = self.cst((k + 1) as u64, self.w(b));
                let x = self.slt(b, c);
                return self.not(x);
            }
            // difference forms
            if na.o == O::Sub || nb.o == O::Sub {
                if let Some(0) = self.kst(b) {
                    // a1 - a2 < 0 without wrap-around
                    let (x, y) = (na.a, na.b);
                    let ((xl, xh), (yl, yh)) = (self.rng(x), self.rng(y));
                    let (fl, fh) = full(self.w(a));
                    if xl as i128 - yh as i128 >= fl as i128 && xh as i128 - yl as i128 <= fh as i128 {
                        return self.slt(x, y);
                    }
                }
            }
            if let Some(r) = self.poly_cmp(a, b, false) {
                return r;
            }
            return self.intern(O::Slt, 1, a, b, 0, 0, 0, 0, 1);
        }
        if let (Some(x), Some(y)) = (self.kst128(a), self.kst128(b)) {
            return if sx128(x, w) < sx128(y, w) { self.t } else { self.f };
        }
        self.intern(O::Slt, 1, a, b, 0, 0, 0, 0, 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.f;
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let (Some(x), Some(y)) = (self.kst128(a), self.kst128(b)) {
            return if x < y { self.t } else { self.f };
        }
        if w <= 64 {
            let ((al, ah), (bl, bh)) = (self.rng(a), self.rng(b));
            if (al >= 0 && bl >= 0) || (ah < 0 && bh < 0) {
                return self.slt(a, b);
            }
            if al >= 0 && bh < 0 {
                return self.t;
            }
            if ah < 0 && bl >= 0 {
                return self.f;
            }
            if let Some(kb) = self.kst(b) {
                if kb == 1 {
                    let z = self.cst(0, w);
                    return self.eq(a, z);
                }
                if kb == 0 {
                    return self.f;
                }
            }
            if let Some(ka) = self.kst(a) {
                if ka == m64(u64::MAX, w) {
                    return self.f;
                }
                if ka == 0 {
                    let z = self.cst(0, w);
                    let x = self.eq(b, z);
                    return self.not(x);
                }
            }
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if na.o == O::Ite && self.is_k(b) && (self.cite(a, 6) || self.is_k(na.b) || self.is_k(na.c)) {
                let x = self.ult(na.b, b);
                let y = self.ult(na.c, b);
                return self.ite(na.a, x, y);
            }
            if nb.o == O::Ite && self.is_k(a) && (self.cite(b, 6) || self.is_k(nb.b) || self.is_k(nb.c)) {
                let x = self.ult(a, nb.b);
                let y = self.ult(a, nb.c);
                return self.ite(nb.a, x, y);
            }
        }
        self.intern(O::Ult, 1, a, b, 0, 0, 0, 0, 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let nc = self.n[c as usize];
        if nc.o == O::Const {
            return if nc.k == 1 { a } else { b };
        }
        if nc.o == O::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.o == O::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.o == O::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if w == 1 {
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
            if a == self.t {
                return self.or(c, b);
            }
            if b == self.f {
                return self.and(c, a);
            }
            if a == self.f {
                let n = self.not(c);
                return self.and(n, b);
            }
            if b == self.t {
                let n = self.not(c);
                return self.or(n, a);
            }
            if self.not(a) == b {
                let x = self.xor(c, a);
                return self.not(x);
            }
            return self.intern(O::Ite, 1, c, a, b, 0, 0, 0, 1);
        }
        // floats: push the choice into the integer
        if na.o == O::I2F || nb.o == O::I2F {
            if let (Some((x, zx)), Some((y, zy))) = (self.as_i2f(a), self.as_i2f(b)) {
                let e = self.ite(c, x, y);
                return self.mk_i2f(e, zx || zy);
            }
        }
        let (lo, hi) = if w <= 64 { (na.lo.min(nb.lo), na.hi.max(nb.hi)) } else { (0, -1) };
        self.intern(O::Ite, w, c, a, b, 0, 0, lo, hi)
    }

    // ---- floating point ----
    fn mk_i2f(&mut self, e: E, z: bool) -> E {
        let e = {
            let s = self.strip(e);
            self.sext(s, 64)
        };
        if let Some(k) = self.kst(e) {
            let v = k as i64;
            if v != 0 || !z {
                return self.cst((v as f64).to_bits(), 64);
            }
        }
        let (lo, _) = self.rng(e);
        // the sign of a zero is only unknown if zero is possible
        let (_, hi) = self.rng(e);
        let z = z && lo <= 0 && hi >= 0;
        self.intern(O::I2F, 64, e, 0, 0, z as u64, 0, 0, -1)
    }
    /// signed integer to double
    pub fn sitofp(&mut self, e: E) -> X<E> {
        let (lo, hi) = if self.w(e) == 1 { (-1, 0) } else { self.rng(e) };
        if lo < -TWO53 || hi > TWO53 {
            return unsup("int to float conversion of a symbolic value beyond 2^53");
        }
        let e = self.sext(e, 64);
        Ok(self.mk_i2f(e, false))
    }
    /// the integer behind an exactly integral float, and whether a zero may be negative
    fn as_i2f(&mut self, e: E) -> Option<(E, bool)> {
        let n = self.n[e as usize];
        match n.o {
            O::I2F => Some((n.a, n.k == 1)),
            O::Const => {
                let f = f64::from_bits(n.k);
                if f.is_finite() && f.fract() == 0.0 && f.abs() <= TWO53 as f64 {
                    let z = f == 0.0 && f.is_sign_negative();
                    Some((self.cst(f as i64 as u64, 64), z))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn fit(&self, e: E) -> X<()> {
        let (lo, hi) = self.rng(e);
        if lo < -TWO53 || hi > TWO53 {
            return unsup("float result beyond 2^53 (not exact)");
        }
        Ok(())
    }
    /// The integer and boolean expressions a float expression is made of.
    pub fn float_leaves(&self, e: E, out: &mut Vec<E>) {
        let n = self.n[e as usize];
        match n.o {
            O::Const => {}
            O::Ite => {
                out.push(n.a);
                self.float_leaves(n.b, out);
                self.float_leaves(n.c, out);
            }
            O::I2F | O::Tab => out.push(n.a),
            _ => out.push(e),
        }
    }
    /// op: 0 add 1 sub 2 mul 3 div
    pub fn fbin(&mut self, op: u8, a: E, b: E) -> X<E> {
        if let (Some(x), Some(y)) = (self.kst(a), self.kst(b)) {
            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
            let r = match op {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                3 => x / y,
                _ => x % y,
            };
            return Ok(self.cst(r.to_bits(), 64));
        }
        if op < 3 {
            if let (Some((x, zx)), Some((y, zy))) = (self.as_i2f(a), self.as_i2f(b)) {
                let (e, z) = match op {
                    0 => (self.add(x, y), zx || zy),
                    1 => (self.sub(x, y), zx || zy),
                    _ => {
                        let ((xl, _), (yl, _)) = (self.rng(x), self.rng(y));
                        let m = self.mul(x, y);
                        (m, zx || zy || xl < 0 || yl < 0)
                    }
                };
                // (a-b)+b style sums cancel exactly, so only the result has to fit
                self.fit(e)?;
                return Ok(self.mk_i2f(e, z));
            }
        }
        self.tab2(a, b, &mut |x, y| {
            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
            (match op {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                3 => x / y,
                _ => x % y,
            })
            .to_bits()
        })
    }
    pub fn fneg(&mut self, a: E) -> X<E> {
        if let Some(k) = self.kst(a) {
            return Ok(self.cst(k ^ (1 << 63), 64));
        }
        if let Some((x, _)) = self.as_i2f(a) {
            let z = self.cst(0, 64);
            let e = self.sub(z, x);
            return Ok(self.mk_i2f(e, true));
        }
        self.tab1(a, &mut |x| x ^ (1 << 63))
    }
    pub fn fabs(&mut self, a: E) -> X<E> {
        if let Some(k) = self.kst(a) {
            return Ok(self.cst(k & !(1 << 63), 64));
        }
        if let Some((x, _)) = self.as_i2f(a) {
            let z = self.cst(0, 64);
            let c = self.slt(x, z);
            let ng = self.sub(z, x);
            let e = self.ite(c, ng, x);
            return Ok(self.mk_i2f(e, false));
        }
        self.tab1(a, &mut |x| x & !(1 << 63))
    }
    pub fn fsqrt(&mut self, a: E) -> X<E> {
        if let Some(k) = self.kst(a) {
            return Ok(self.cst(f64::from_bits(k).sqrt().to_bits(), 64));
        }
        self.tab1(a, &mut |x| f64::from_bits(x).sqrt().to_bits())
    }
    /// to an integral value: 0 floor 1 ceil 2 trunc 3 round 4 round to even
    pub fn fround(&mut self, k: u8, a: E) -> X<E> {
        let f = move |x: u64| {
            let x = f64::from_bits(x);
            (match k {
                0 => x.floor(),
                1 => x.ceil(),
                2 => x.trunc(),
                3 => x.round(),
                _ => x.round_ties_even(),
            })
            .to_bits()
        };
        if let Some(x) = self.kst(a) {
            return Ok(self.cst(f(x), 64));
        }
        if self.as_i2f(a).is_some() {
            return Ok(a);
        }
        self.tab1(a, &mut |x| f(x))
    }
    pub fn fcopysign(&mut self, a: E, b: E) -> X<E> {
        if let (Some(x), Some(y)) = (self.kst(a), self.kst(b)) {
            return Ok(self.cst(f64::from_bits(x).copysign(f64::from_bits(y)).to_bits(), 64));
        }
        self.tab2(a, b, &mut |x, y| f64::from_bits(x).copysign(f64::from_bits(y)).to_bits())
    }
    /// a * b + c, where the product is exact
    pub fn fma(&mut self, a: E, b: E, d: E) -> X<E> {
        if let (Some(x), Some(y), Some(z)) = (self.kst(a), self.kst(b), self.kst(d)) {
            let r = f64::from_bits(x).mul_add(f64::from_bits(y), f64::from_bits(z));
            return Ok(self.cst(r.to_bits(), 64));
        }
        if self.as_i2f(a).is_some() && self.as_i2f(b).is_some() {
            let m = self.fbin(2, a, b)?;
            return self.fbin(0, m, d);
        }
        unsup("fused multiply-add of symbolic floats")
    }
    pub fn fptosi(&mut self, a: E, w: u32) -> X<E> {
        if let Some((x, _)) = self.as_i2f(a) {
            return Ok(self.extract(x, 0, w));
        }
        unsup("symbolic float to int")
    }

    /// saturating, NaN is 0
    pub fn fptosi_sat(&mut self, a: E, w: u32) -> X<E> {
        let n = self.n[a as usize];
        let (lo, hi) = if w == 64 { (i64::MIN, i64::MAX) } else { (i32::MIN as i64, i32::MAX as i64) };
        if n.o == O::Const {
            let v = (f64::from_bits(n.k) as i64).clamp(lo, hi);
            return Ok(self.cst(if w == 64 { v as u64 } else { v as i32 as u32 as u64 }, w));
        }
        if n.o == O::Ite {
            let x = self.fptosi_sat(n.b, w)?;
            let y = self.fptosi_sat(n.c, w)?;
            return Ok(self.ite(n.a, x, y));
        }
        if let Some((x, _)) = self.as_i2f(a) {
            let r = self.rng(x);
            if r.0 >= lo && r.1 <= hi {
                return Ok(self.extract(x, 0, w));
            }
        }
        unsup("symbolic float to int")
    }
    /// A float as a table over an index expression. Returns (index expr in 0..len, table).
    fn as_tab(&mut self, e: E) -> Option<(E, Vec<u64>)> {
        self.as_tab_n(e, TABMAX as i64)
    }
    fn as_tab_n(&mut self, e: E, max: i64) -> Option<(E, Vec<u64>)> {
        let n = self.n[e as usize];
        match n.o {
            O::Const => {
                let z = self.cst(0, 64);
                Some((z, vec![n.k]))
            }
            O::Tab => Some((n.a, self.tabs[n.k as usize].clone())),
            O::I2F => {
                let (lo, hi) = self.rng(n.a);
                if n.k == 1 || hi.checked_sub(lo)? >= max {
                    return None;
                }
                let l = self.cst(lo as u64, 64);
                let i = self.sub(n.a, l);
                Some((i, (lo..=hi).map(|v| (v as f64).to_bits()).collect()))
            }
            _ => None,
        }
    }
    fn mk_tab(&mut self, idx: E, mut t: Vec<u64>) -> E {
        if t.iter().all(|x| *x == t[0]) {
            return self.cst(t[0], 64);
        }
        if let Some(k) = self.kst(idx) {
            return self.cst(t[k as usize], 64);
        }
        let (_, hi) = self.rng(idx);
        t.truncate(hi as usize + 1);
        // a few steps: a choice between constants
        let cuts: Vec<usize> = (1..t.len()).filter(|i| t[*i] != t[*i - 1]).collect();
        if cuts.len() <= 3 {
            let mut r = self.cst(t[t.len() - 1], 64);
            for k in cuts.iter().rev() {
                let kc = self.cst(*k as u64, 64);
                let c = self.slt(idx, kc);
                let v = self.cst(t[*k - 1], 64);
                r = self.ite(c, v, r);
            }
            return r;
        }
        let id = match self.tabmap.get(&t) {
            Some(i) => *i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(t.clone());
                self.tabmap.insert(t.clone(), i);
                i
            }
        };
        let mut h = Fx(5);
        for x in &t {
            h.write_u64(*x);
        }
        let kh = h.finish();
        let e = self.intern(O::Tab, 64, idx, 0, 0, id as u64, kh, 0, -1);
        // creation-order independent hash
        let mut h = Fx(9);
        h.write_u64(self.n[idx as usize].h);
        h.write_u64(kh);
        self.n[e as usize].h = h.finish();
        e
    }
    fn tab1(&mut self, a: E, f: &mut dyn FnMut(u64) -> u64) -> X<E> {
        let n = self.n[a as usize];
        if n.o == O::Ite {
            let x = self.tab1(n.b, f)?;
            let y = self.tab1(n.c, f)?;
            return Ok(self.ite(n.a, x, y));
        }
        if n.o == O::Const {
            return Ok(self.cst(f(n.k), 64));
        }
        match self.as_tab(a) {
            Some((i, t)) => {
                let t = t.into_iter().map(|x| f(x)).collect();
                Ok(self.mk_tab(i, t))
            }
            None => unsup("float operation outside the exact fragment"),
        }
    }
    fn tab2(&mut self, a: E, b: E, f: &mut dyn FnMut(u64, u64) -> u64) -> X<E> {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.o == O::Ite {
            let x = self.tab2(na.b, b, f)?;
            let y = self.tab2(na.c, b, f)?;
            return Ok(self.ite(na.a, x, y));
        }
        if nb.o == O::Ite {
            let x = self.tab2(a, nb.b, f)?;
            let y = self.tab2(a, nb.c, f)?;
            return Ok(self.ite(nb.a, x, y));
        }
        match self.tab_join(a, b) {
            Some((i, pairs)) => {
                let t = pairs.into_iter().map(|(x, y)| f(x, y)).collect();
                Ok(self.mk_tab(i, t))
            }
            None => unsup("float operation outside the exact fragment"),
        }
    }
    fn tab_join(&mut self, a: E, b: E) -> Option<(E, Vec<(u64, u64)>)> {
        let (ia, ta) = self.as_tab(a)?;
        let (ib, tb) = self.as_tab(b)?;
        if ia == ib {
            return Some((ia, ta.into_iter().zip(tb).collect()));
        }
        if ta.len() * tb.len() > TABMAX {
            return None;
        }
        let m = self.cst(tb.len() as u64, 64);
        let p = self.mul(ia, m);
        let i = self.add(p, ib);
        let mut v = Vec::with_capacity(ta.len() * tb.len());
        for x in &ta {
            for y in &tb {
                v.push((*x, *y));
            }
        }
        Some((i, v))
    }
    /// mask: un=1 lt=2 gt=4 eq=8
    pub fn fcmp(&mut self, mask: u8, a: E, b: E) -> X<E> {
        if mask == 0 {
            return Ok(self.f);
        }
        if mask == 15 {
            return Ok(self.t);
        }
        let hit = |x: u64, y: u64| -> bool {
            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
            let c = match x.partial_cmp(&y) {
                None => 1,
                Some(std::cmp::Ordering::Less) => 2,
                Some(std::cmp::Ordering::Greater) => 4,
                Some(std::cmp::Ordering::Equal) => 8,
            };
            c & mask != 0
        };
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.o == O::Const && nb.o == O::Const {
            return Ok(if hit(na.k, nb.k) { self.t } else { self.f });
        }
        if na.o == O::Ite {
            let x = self.fcmp(mask, na.b, b)?;
            let y = self.fcmp(mask, na.c, b)?;
            return Ok(self.ite(na.a, x, y));
        }
        if nb.o == O::Ite {
            let x = self.fcmp(mask, a, nb.b)?;
            let y = self.fcmp(mask, a, nb.c)?;
            return Ok(self.ite(nb.a, x, y));
        }
        if let (Some((x, _)), Some((y, _))) = (self.as_i2f(a), self.as_i2f(b)) {
            let r = match mask & 14 {
                0 => self.f,
                2 => self.slt(x, y),
                4 => self.slt(y, x),
                6 => {
                    let e = self.eq(x, y);
                    self.not(e)
                }
                8 => self.eq(x, y),
                10 => {
                    let e = self.slt(y, x);
                    self.not(e)
                }
                12 => {
                    let e = self.slt(x, y);
                    self.not(e)
                }
                _ => self.t,
            };
            return Ok(r);
        }
        // integral against a non-integral or non-finite constant
        for (sym, k, flip) in [(a, nb, false), (b, na, true)] {
            if k.o == O::Const && self.n[sym as usize].o == O::I2F {
                let f = f64::from_bits(k.k);
                let x = self.n[sym as usize].a;
                if f.is_nan() {
                    return Ok(if mask & 1 != 0 { self.t } else { self.f });
                }
                // position of x relative to f: lt iff x <= floor(f)
                let lt = if f == f64::INFINITY || f >= 9.3e18 {
                    self.t
                } else if f == f64::NEG_INFINITY || f <= -9.3e18 {
                    self.f
                } else {
                    let fl = f.floor() as i64;
                    let c = self.cst(fl as u64, 64);
                    let g = self.slt(c, x);
                    self.not(g)
                };
                let gt = self.not(lt);
                let m = if flip { (mask & 9) | (mask & 2) << 1 | (mask & 4) >> 1 } else { mask };
                let mut r = self.f;
                if m & 2 != 0 {
                    r = self.or(r, lt);
                }
                if m & 4 != 0 {
                    r = self.or(r, gt);
                }
                return Ok(r);
            }
        }
        // tables; the sign of a zero does not matter here
        let (a, b) = (self.any_zero(a), self.any_zero(b));
        if let Some(r) = self.tab_affine(mask, a, b) {
            return Ok(r);
        }
        match self.tab_join(a, b) {
            Some((i, pairs)) => {
                let bits: Vec<bool> = pairs.iter().map(|(x, y)| hit(*x, *y)).collect();
                Ok(self.index_in(i, &bits))
            }
            None => unsup("float comparison outside the exact fragment"),
        }
    }
    fn any_zero(&mut self, a: E) -> E {
        let n = self.n[a as usize];
        if n.o == O::I2F && n.k == 1 {
            return self.mk_i2f(n.a, false);
        }
        a
    }
    /// The order of two tables as the order of two affine functions of their
    /// indices, checked for every pair of entries.
    fn tab_affine(&mut self, mask: u8, a: E, b: E) -> Option<E> {
        let (ia, ta) = self.as_tab_n(a, 1 << 13)?;
        let (ib, tb) = self.as_tab_n(b, 1 << 13)?;
        let (na, nb) = (ta.len(), tb.len());
        if na < 2 || nb < 2 || ia == ib || na * nb > 1 << 24 {
            return None;
        }
        let ka = (a, b);
        let pq = match self.affine.get(&ka) {
            Some(r) => *r,
            None => {
                let r = affine_order(&ta, &tb);
                self.affine.insert(ka, r);
                r
            }
        };
        let (p, q, r, flip) = pq?;
        // p ia + q against r ib
        let lin = |c: &mut Ctx, k: i64, e: E, o: i64| {
            let k = c.cst(k as u64, 64);
            let o = c.cst(o as u64, 64);
            let m = c.mul(e, k);
            c.add(m, o)
        };
        let l = lin(self, p, ia, q);
        let g = lin(self, r, ib, 0);
        let (l, g) = if flip { (g, l) } else { (l, g) };
        let mut out = self.f;
        if mask & 2 != 0 {
            let x = self.slt(l, g);
            out = self.or(out, x);
        }
        if mask & 4 != 0 {
            let x = self.slt(g, l);
            out = self.or(out, x);
        }
        match mask & 14 {
            8 => out = self.eq(l, g),
            10 => {
                let x = self.slt(g, l);
                out = self.not(x);
            }
            12 => {
                let x = self.slt(l, g);
                out = self.not(x);
            }
            14 => out = self.t,
            _ => {}
        }
        Some(out)
    }
    /// i in the set of true positions, as a union of intervals
    fn index_in(&mut self, i: E, bits: &[bool]) -> E {
        let (_, hi) = self.rng(i);
        let n = bits.len().min(hi as usize + 1);
        let mut r = self.f;
        let mut k = 0;
        while k < n {
            if bits[k] {
                let st = k;
                while k < n && bits[k] {
                    k += 1;
                }
                let (s, e) = (self.cst(st as u64, 64), self.cst(k as u64, 64));
                let ge = self.slt(i, s);
                let ge = self.not(ge);
                let lt = self.slt(i, e);
                let c = self.and(ge, lt);
                r = self.or(r, c);
            } else {
                k += 1;
            }
        }
        r
    }

    // ---- evaluation under a model ----
    /// `stamp` identifies the model so that memoised values can be reused.
    pub fn eval(&mut self, e: E, model: &[u64], stamp: u64) -> u128 {
        if self.memo_model != stamp {
            self.memo_model = stamp;
            self.epoch += 1;
        }
        if self.memo.len() < self.n.len() {
            self.memo.resize(self.n.len(), (0, 0));
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u64]) -> u128 {
        let n = self.n[e as usize];
        if n.o == O::Const {
            return n.k as u128 | (n.kh as u128) << 64;
        }
        let (ep, v) = self.memo[e as usize];
        if ep == self.epoch {
            return v;
        }
        let w = n.w as u32;
        let r: u128 = match n.o {
            O::Const => unreachable!(),
            O::Undef => 0,
            O::Var => {
                let v = &self.vars[n.k as usize];
                let x = model.get(n.k as usize).copied().unwrap_or(v.lo as u64);
                m64(x, v.w) as u128
            }
            O::Not => 1 ^ self.ev(n.a, model),
            O::Ite => {
                if self.ev(n.a, model) == 1 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            O::ZExt => self.ev(n.a, model),
            O::SExt => sx128(self.ev(n.a, model), self.w(n.a)) as u128,
            O::Extract => self.ev(n.a, model) >> n.k,
            O::Concat => {
                let l = self.ev(n.b, model);
                let h = self.ev(n.a, model);
                h << self.w(n.b) | l
            }
            O::I2F => {
                let v = self.ev(n.a, model) as u64 as i64;
                (v as f64).to_bits() as u128
            }
            O::Tab => {
                let i = self.ev(n.a, model) as usize;
                self.tabs[n.k as usize].get(i).copied().unwrap_or(0) as u128
            }
            _ => {
                let x = self.ev(n.a, model);
                let y = self.ev(n.b, model);
                let ow = self.w(n.a);
                match n.o {
                    O::Add => x.wrapping_add(y),
                    O::Sub => x.wrapping_sub(y),
                    O::Mul => x.wrapping_mul(y),
                    O::UDiv => {
                        if y == 0 {
                            u128::MAX
                        } else {
                            x / y
                        }
                    }
                    O::URem => {
                        if y == 0 {
                            x
                        } else {
                            x % y
                        }
                    }
                    O::SDiv => {
                        let (a, b) = (sx128(x, ow), sx128(y, ow));
                        if b == 0 {
                            if a >= 0 {
                                u128::MAX
                            } else {
                                1
                            }
                        } else {
                            a.wrapping_div(b) as u128
                        }
                    }
                    O::SRem => {
                        let (a, b) = (sx128(x, ow), sx128(y, ow));
                        if b == 0 {
                            a as u128
                        } else {
                            a.wrapping_rem(b) as u128
                        }
                    }
                    O::And => x & y,
                    O::Or => x | y,
                    O::Xor => x ^ y,
                    O::Shl => {
                        if y >= ow as u128 {
                            0
                        } else {
                            x << y
                        }
                    }
                    O::LShr => {
                        if y >= ow as u128 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    O::AShr => (sx128(x, ow) >> y.min(127)) as u128,
                    O::Eq => (x == y) as u128,
                    O::Ult => (x < y) as u128,
                    O::Slt => (sx128(x, ow) < sx128(y, ow)) as u128,
                    _ => unreachable!(),
                }
            }
        };
        let r = m128(r, w);
        self.memo[e as usize] = (self.epoch, r);
        r
    }

    pub fn var_expr(&self, id: u32) -> E {
        self.vars[id as usize].e
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = &self.n[e as usize];
        match n.o {
            O::Const => format!("{}", sx(n.k, n.w.min(64) as u32)),
            O::Var => format!("x{}", self.vars[n.k as usize].idx),
            _ if d == 0 => "..".into(),
            _ => {
                let mut s = format!("({:?}", n.o);
                if matches!(n.o, O::Extract | O::ZExt | O::SExt | O::Tab) {
                    s.push_str(&format!("[{}:{}]", n.k, n.w));
                }
                for (i, x) in [n.a, n.b, n.c].iter().enumerate() {
                    if i < arity(n.o) {
                        s.push(' ');
                        s.push_str(&self.show(*x, d - 1));
                    }
                }
                s.push(')');
                s
            }
        }
    }

    /// sorted variable support
    pub fn support(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if self.sup.len() < self.n.len() {
            self.sup.resize(self.n.len(), None);
        }
        if let Some(s) = &self.sup[e as usize] {
            return s.clone();
        }
        let n = self.n[e as usize];
        let mut v: Vec<u32> = Vec::new();
        if n.o == O::Var {
            v.push(n.k as u32);
        } else {
            let ar = arity(n.o);
            for (i, x) in [n.a, n.b, n.c].iter().enumerate() {
                if i < ar {
                    let s = self.support(*x);
                    v.extend_from_slice(&s);
                }
            }
            v.sort_unstable();
            v.dedup();
        }
        let r = std::rc::Rc::new(v);
        self.sup[e as usize] = Some(r.clone());
        r
    }
}

pub const TABMAX: usize = 4096;

pub fn arity(o: O) -> usize {
    match o {
        O::Const | O::Var | O::Undef => 0,
        O::ZExt | O::SExt | O::Extract | O::Not | O::I2F | O::Tab => 1,
        O::Ite => 3,
        _ => 2,
    }
}

/// (p, q, r, flip): ta[i] is ordered against tb[j] as p i + q against r j
/// (flip: the other way round), for all i and j.
fn affine_order(ta: &[u64], tb: &[u64]) -> Option<(i64, i64, i64, bool)> {
    let f = |x: &u64| f64::from_bits(*x);
    let (na, nb) = (ta.len(), tb.len());
    let sa = (f(&ta[na - 1]) - f(&ta[0])) / (na as f64 - 1.0);
    let sb = (f(&tb[nb - 1]) - f(&tb[0])) / (nb as f64 - 1.0);
    if !sa.is_finite() || !sb.is_finite() || sa == 0.0 || sb == 0.0 {
        return None;
    }
    let ratio = sa / sb;
    let r = (1..=4096i64).find(|r| {
        let p = ratio * *r as f64;
        (p - p.round()).abs() < 1e-7 && p.round() != 0.0
    })?;
    let p = (ratio * r as f64).round();
    let q = ((f(&ta[0]) - f(&tb[0])) / sb * r as f64).round();
    if p.abs() > 1e6 || q.abs() > 1e12 {
        return None;
    }
    let (p, q) = (p as i64, q as i64);
    let flip = sb < 0.0;
    for (i, x) in ta.iter().enumerate() {
        let l = p * i as i64 + q;
        for (j, y) in tb.iter().enumerate() {
            let o = l.cmp(&(r * j as i64));
            let o = if flip { o.reverse() } else { o };
            if f(x).partial_cmp(&f(y)) != Some(o) {
                return None;
            }
        }
    }
    Some((p, q, r, flip))
}
