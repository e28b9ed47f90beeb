//! Harness-side bounds, key and value types.  Their callbacks never branch on
//! symbolic data, so the only forks come from the library's own decisions.
use crate::sym::*;
use noisy_float::types::{n64, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::intersects::Intersects;
use std::borrow::Borrow;
use std::cell::UnsafeCell;

pub const NTOK: usize = 1024;
pub const NKEY: usize = 48;
pub const NVOL: usize = 192;

#[derive(Clone, Copy, PartialEq)]
pub enum Vol {
    /// volume = extent of the keys' concrete build positions
    Build,
    /// volume = an unknown monotone function of the set of keys
    Any,
    /// volume = geometric volume of the symbolic box
    Geo,
}

pub struct G {
    /// bit of the property the job decides
    pub prop: u32,
    pub tok: [u8; NTOK],
    pub ntok: usize,
    pub vol: Vol,
    pub pos: [i64; NKEY],
    pub vmask: [u64; NVOL],
    pub vval: [i64; NVOL],
    pub nvol: usize,
    pub volmax: i64,
    /// greatest coordinate of a key of arbitrary geometry
    pub span: i64,
    /// panic injection: armed, ticks so far, symbolic tick that panics
    pub armed: bool,
    pub tick: i64,
    pub at: i64,
    pub sloppy: bool,
    pub bid: u64,
    /// ids of the keys compared so far
    pub cmp: u64,
}
pub struct Cell0<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Cell0<T> {}
impl<T> Cell0<T> {
    pub const fn new(t: T) -> Self {
        Cell0(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn g(&self) -> &'static mut T {
        unsafe { &mut *self.0.get() }
    }
}
pub static GL: Cell0<G> = Cell0::new(G {
    prop: 0,
    tok: [0; NTOK],
    ntok: 0,
    vol: Vol::Build,
    pos: [0; NKEY],
    vmask: [0; NVOL],
    vval: [0; NVOL],
    nvol: 0,
    volmax: 63,
    span: 63,
    armed: false,
    tick: 0,
    at: 0,
    sloppy: false,
    bid: 0,
    cmp: 0,
});
#[inline(always)]
pub fn g() -> &'static mut G {
    GL.g()
}

pub const fn c(n: u32) -> u32 {
    1 << n
}
/// Properties that speak about ownership of keys and values.
pub const OWN: u32 = c(13) | c(14) | c(15) | c(16) | c(17);
/// An assertion that belongs to the given properties; other jobs skip it.
#[inline(always)]
pub fn ck(props: u32, cond: bool, msg: &str) {
    if g().prop & props != 0 {
        check(cond, msg);
    }
}
/// Starts a job: parameter 0 is the property number.
pub fn start() {
    g().prop = 1 << param(0);
}
pub fn is(props: u32) -> bool {
    g().prop & props != 0
}

/// Every user callback passes here: the point where a panic can be injected.
#[inline(never)]
pub fn tick() {
    let g = g();
    if g.armed {
        let t = g.tick;
        g.tick = t + 1;
        if g.at == t {
            g.armed = false;
            cover(90);
            user_panic();
        }
    }
}
pub fn arm(max: i64) {
    let g = g();
    g.tick = 0;
    g.at = int(0, max);
    g.armed = true;
}
pub fn disarm() {
    g().armed = false;
}

// ---------------------------------------------------------------- tokens

/// A resource that must be dropped exactly once.
pub struct Tok(pub u16);
impl Tok {
    pub fn new() -> Tok {
        let g = g();
        let i = g.ntok;
        g.ntok = i + 1;
        g.tok[i] = 1;
        Tok(i as u16)
    }
    pub fn is_live(&self) -> bool {
        let i = self.0 as usize;
        i < g().ntok && g().tok[i] == 1
    }
}
impl Drop for Tok {
    #[inline(never)]
    fn drop(&mut self) {
        let i = self.0 as usize;
        let g = g();
        ck(OWN, i < g.ntok, "a value that was never created is dropped");
        ck(OWN, i >= NTOK || g.tok[i] == 1, "a key or value is dropped twice");
        if i < NTOK {
            g.tok[i] = 2;
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        ck(OWN, self.is_live(), "a dropped key or value is cloned");
        Tok::new()
    }
}
/// Number of tokens created and not yet dropped.
pub fn live_tokens() -> usize {
    let g = g();
    let mut n = 0;
    for i in 0..g.ntok {
        if g.tok[i] == 1 {
            n += 1;
        }
    }
    n
}

// ---------------------------------------------------------------- bounds

pub struct HB<const D: usize> {
    pub lo: [i64; D],
    pub hi: [i64; D],
    /// ids of the keys united into this object; only volumes look at it
    pub mask: u64,
    pub bid: u64,
}
impl<const D: usize> HB<D> {
    pub fn same(&self, o: &HB<D>) -> bool {
        let mut r = true;
        for d in 0..D {
            r = r & (self.lo[d] == o.lo[d]) & (self.hi[d] == o.hi[d]);
        }
        r
    }
    pub fn raw_copy(&self) -> HB<D> {
        HB { lo: self.lo, hi: self.hi, mask: self.mask, bid: self.bid }
    }
    pub fn raw_empty() -> HB<D> {
        HB { lo: [100000; D], hi: [-100000; D], mask: 0, bid: 0 }
    }
    pub fn raw_union(a: &HB<D>, b: &HB<D>) -> HB<D> {
        let mut r = a.raw_copy();
        for d in 0..D {
            r.lo[d] = ite(a.lo[d] <= b.lo[d], a.lo[d], b.lo[d]);
            r.hi[d] = ite(a.hi[d] >= b.hi[d], a.hi[d], b.hi[d]);
        }
        r.mask = a.mask | b.mask;
        let g = g();
        g.bid += 1;
        r.bid = g.bid;
        r
    }
    pub fn raw_intersects(&self, o: &HB<D>) -> bool {
        let mut r = true;
        for d in 0..D {
            r = r & (self.lo[d] <= o.hi[d]) & (self.hi[d] >= o.lo[d]);
        }
        r
    }
    pub fn raw_contains(&self, o: &HB<D>) -> bool {
        let mut r = true;
        for d in 0..D {
            r = r & (self.lo[d] <= o.lo[d]) & (self.hi[d] >= o.hi[d]);
        }
        r
    }
}
impl<const D: usize> Clone for HB<D> {
    fn clone(&self) -> Self {
        tick();
        self.raw_copy()
    }
}
impl<const D: usize> Contains<HB<D>> for HB<D> {
    fn contains(&self, o: &HB<D>) -> bool {
        tick();
        self.raw_contains(o)
    }
}
impl<const D: usize> Intersects<HB<D>> for HB<D> {
    fn intersects(&self, o: &HB<D>) -> bool {
        tick();
        self.raw_intersects(o)
    }
}
impl<const D: usize> Bounds for HB<D> {
    fn empty() -> Self {
        tick();
        HB::raw_empty()
    }
    fn union(a: &Self, b: &Self) -> Self {
        tick();
        let mut r = HB::raw_union(a, b);
        if g().sloppy && a.mask != 0 && b.mask != 0 {
            // a legal, inexact union: one unit wider wherever the hull is
            // wider than both operands
            for d in 0..D {
                let fit = ((r.lo[d] == a.lo[d]) & (r.hi[d] == a.hi[d])) | ((r.lo[d] == b.lo[d]) & (r.hi[d] == b.hi[d]));
                r.lo[d] = ite(fit, r.lo[d], r.lo[d] - 1);
                r.hi[d] = ite(fit, r.hi[d], r.hi[d] + 1);
            }
        }
        r
    }
    fn union_all(it: impl IntoIterator<Item = Self>) -> Self {
        let mut r = Self::empty();
        for b in it {
            r = Self::union(&r, &b);
        }
        r
    }
}

/// Volumes of key sets, by the mode selected in the globals.
pub fn mask_volume(mask: u64) -> i64 {
    let g = g();
    match g.vol {
        Vol::Build => {
            let (mut lo, mut hi) = (1 << 40, -(1 << 40));
            for i in 0..NKEY {
                if mask >> i & 1 == 1 {
                    if g.pos[i] < lo {
                        lo = g.pos[i];
                    }
                    if g.pos[i] > hi {
                        hi = g.pos[i];
                    }
                }
            }
            if mask == 0 {
                0
            } else {
                hi - lo
            }
        }
        _ => {
            for i in 0..g.nvol {
                if g.vmask[i] == mask {
                    return g.vval[i];
                }
            }
            if mask == 0 {
                return 0;
            }
            let v = int(0, g.volmax);
            for i in 0..g.nvol {
                let m = g.vmask[i];
                if m & mask == m {
                    assume(g.vval[i] <= v);
                } else if m & mask == mask {
                    assume(v <= g.vval[i]);
                }
            }
            let i = g.nvol;
            check(i < NVOL, "harness: volume table full");
            g.vmask[i] = mask;
            g.vval[i] = v;
            g.nvol = i + 1;
            v
        }
    }
}
impl<const D: usize> HB<D> {
    pub fn raw_volume(&self) -> i64 {
        if g().vol == Vol::Geo {
            let mut v = 1;
            for d in 0..D {
                v *= self.hi[d] - self.lo[d];
            }
            return v;
        }
        mask_volume(self.mask)
    }
}
impl<const D: usize> Volume for HB<D> {
    fn volume(&self) -> N64 {
        tick();
        n64(self.raw_volume() as f64)
    }
}

// ------------------------------------------------------------------ keys

pub struct HK<const D: usize> {
    pub q: HQ<D>,
    pub tok: Tok,
}
/// The borrowed form of a key.
pub struct HQ<const D: usize> {
    pub lo: [i64; D],
    pub hi: [i64; D],
    pub id: u32,
}
impl<const D: usize> HQ<D> {
    pub fn same(&self, o: &Self) -> bool {
        let mut r = true;
        for d in 0..D {
            r = r & (self.lo[d] == o.lo[d]) & (self.hi[d] == o.hi[d]);
        }
        r
    }
    pub fn hb(&self) -> HB<D> {
        HB { lo: self.lo, hi: self.hi, mask: 1 << self.id, bid: 0 }
    }
    pub fn copy(&self) -> HQ<D> {
        HQ { lo: self.lo, hi: self.hi, id: self.id }
    }
}
impl<const D: usize> PartialEq for HQ<D> {
    fn eq(&self, o: &Self) -> bool {
        tick();
        g().cmp |= 1 << self.id | 1 << o.id;
        self.same(o)
    }
}
impl<const D: usize> Eq for HQ<D> {}
impl<const D: usize> PartialEq for HK<D> {
    fn eq(&self, o: &Self) -> bool {
        tick();
        ck(OWN, self.tok.is_live() & o.tok.is_live(), "a dropped key is compared");
        g().cmp |= 1 << self.q.id | 1 << o.q.id;
        self.q.same(&o.q)
    }
}
impl<const D: usize> Eq for HK<D> {}
impl<const D: usize> Bounded<HB<D>> for HQ<D> {
    fn bounds(&self) -> HB<D> {
        tick();
        let mut b = self.hb();
        let g = g();
        g.bid += 1;
        b.bid = g.bid;
        b
    }
}
impl<const D: usize> Bounded<HB<D>> for HK<D> {
    fn bounds(&self) -> HB<D> {
        ck(OWN, self.tok.is_live(), "a dropped key is used");
        self.q.bounds()
    }
}
impl<const D: usize> Borrow<HQ<D>> for HK<D> {
    fn borrow(&self) -> &HQ<D> {
        &self.q
    }
}
impl<const D: usize> Clone for HK<D> {
    fn clone(&self) -> Self {
        tick();
        HK { q: self.q.copy(), tok: self.tok.clone() }
    }
}
impl<const D: usize> HK<D> {
    pub fn from_q(q: HQ<D>) -> Self {
        HK { q, tok: Tok::new() }
    }
}

/// A key of arbitrary geometry: any box with min <= max.
pub fn sym_q<const D: usize>(id: u32) -> HQ<D> {
    let mut lo = [0; D];
    let mut hi = [0; D];
    for d in 0..D {
        lo[d] = int(0, g().span);
        hi[d] = int(0, g().span);
        assume(lo[d] <= hi[d]);
    }
    HQ { lo, hi, id }
}
/// A key of fixed geometry.
pub fn fix_q<const D: usize>(id: u32, lo: i64, hi: i64) -> HQ<D> {
    HQ { lo: [lo; D], hi: [hi; D], id }
}

// ---------------------------------------------------------------- values

pub trait HV: 'static {
    fn mk(x: i64) -> Self;
    fn get(&self) -> i64;
    fn set(&mut self, x: i64);
}
impl HV for i64 {
    fn mk(x: i64) -> Self {
        x
    }
    fn get(&self) -> i64 {
        *self
    }
    fn set(&mut self, x: i64) {
        *self = x
    }
}
/// A value that owns a token and a heap block.
pub struct TV {
    pub x: Box<i64>,
    pub tok: Tok,
}
impl HV for TV {
    fn mk(x: i64) -> Self {
        TV { x: Box::new(x), tok: Tok::new() }
    }
    fn get(&self) -> i64 {
        ck(OWN, self.tok.is_live(), "a dropped value is read");
        *self.x
    }
    fn set(&mut self, x: i64) {
        ck(OWN, self.tok.is_live(), "a dropped value is written");
        *self.x = x
    }
}
impl Clone for TV {
    fn clone(&self) -> Self {
        tick();
        TV { x: self.x.clone(), tok: self.tok.clone() }
    }
}
