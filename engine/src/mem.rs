//! Byte-addressed memory made of separate objects, copy-on-write.
//!
//! A pointer is `gen(11) slot(20) | offset(32)`. A slot is recycled under a new generation, so
//! that a stale pointer is told from a live one. Every byte has a shadow: 0 uninitialised,
//! 1 concrete, 2 part of a symbolic value.
use crate::expr::*;
use crate::parse::{Module, FUNC_SLOT, GLOBAL_BASE};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u32,
    pub align: u32,
    pub kind: Kind,
    pub ro: bool,
    data: Vec<u8>,
    sh: Vec<u8>,
    /// (offset, bytes, value), sorted, disjoint
    syms: Vec<(u32, u32, E)>,
}

#[derive(Clone)]
struct Slot {
    gen: u16,
    obj: Option<Rc<Obj>>,
}

#[derive(Clone)]
pub struct Mem {
    slots: Vec<Slot>,
    free: Vec<u32>,
    globals: Vec<Option<Rc<Obj>>>,
    pub live_heap: u64,
}

pub enum Err {
    /// the program did something it must not do
    Bad(String),
    /// outside what the engine encodes
    Unsup(String),
}
impl From<Unsup> for Err {
    fn from(u: Unsup) -> Err {
        Err::Unsup(u.0)
    }
}
pub type MR<T> = Result<T, Err>;
fn bad<T>(s: String) -> MR<T> {
    Err(Err::Bad(s))
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(E),
    A(Rc<Vec<Val>>),
}

impl Obj {
    fn split(&mut self, c: &mut Ctx, i: usize) {
        // replace sym i by its bytes
        let (o, l, e) = self.syms.remove(i);
        for k in 0..l {
            let b = c.extract(e, 8 * k, 8);
            if c.n[b as usize].o == O::Const {
                self.data[(o + k) as usize] = c.n[b as usize].k as u8;
                self.sh[(o + k) as usize] = 1;
            } else if c.n[b as usize].o == O::Undef {
                self.sh[(o + k) as usize] = 0;
            } else {
                let p = self.syms.partition_point(|s| s.0 < o + k);
                self.syms.insert(p, (o + k, 1, b));
            }
        }
    }
    /// make sure no symbolic value straddles `at`
    fn cut(&mut self, c: &mut Ctx, at: u32) {
        if at == 0 || at >= self.size || self.sh[at as usize] != 2 {
            return;
        }
        let p = self.syms.partition_point(|s| s.0 <= at);
        if p > 0 {
            let (o, l, _) = self.syms[p - 1];
            if o < at && o + l > at {
                self.split(c, p - 1);
            }
        }
    }
    fn clear(&mut self, c: &mut Ctx, off: u32, n: u32) {
        if self.syms.is_empty() {
            return;
        }
        self.cut(c, off);
        self.cut(c, off + n);
        self.syms.retain(|s| s.0 < off || s.0 >= off + n);
    }
}

impl Mem {
    pub fn new(m: &Module) -> Mem {
        Mem { slots: Vec::new(), free: Vec::new(), globals: vec![None; m.globals.len()], live_heap: 0 }
    }
    fn base(&self) -> u64 {
        GLOBAL_BASE + self.globals.len() as u64
    }
    pub fn alloc(&mut self, size: u64, align: u32, kind: Kind) -> u64 {
        let o = Rc::new(Obj {
            size: size as u32,
            align,
            kind,
            ro: false,
            data: vec![0; size as usize],
            sh: vec![0; size as usize],
            syms: Vec::new(),
        });
        if kind == Kind::Heap {
            self.live_heap += 1;
        }
        let k = match self.free.pop() {
            Some(k) => {
                self.slots[k as usize].obj = Some(o);
                k
            }
            None => {
                self.slots.push(Slot { gen: 0, obj: Some(o) });
                self.slots.len() as u32 - 1
            }
        };
        let s = self.base() + k as u64;
        ((self.slots[k as usize].gen as u64) << 20 | s) << 32
    }
    fn find(&self, p: u64) -> MR<usize> {
        let hi = p >> 32;
        let s = hi & 0xfffff;
        let b = self.base();
        if s < b || s - b >= self.slots.len() as u64 {
            return bad(format!("invalid pointer {:#x}", p));
        }
        let k = (s - b) as usize;
        let sl = &self.slots[k];
        if sl.gen as u64 != hi >> 20 || sl.obj.is_none() {
            return bad("use after free".into());
        }
        Ok(k)
    }
    pub fn dealloc(&mut self, p: u64, kind: Kind, layout: Option<(u64, u64)>) -> MR<()> {
        let k = self.find(p).map_err(|_| Err::Bad("free of a pointer that is not live (double free)".into()))?;
        let o = self.slots[k].obj.as_ref().unwrap();
        if o.kind != kind {
            return bad("free of a non-heap object".into());
        }
        if p & 0xffff_ffff != 0 {
            return bad("free of an interior pointer".into());
        }
        if let Some((s, a)) = layout {
            if s != o.size as u64 || a != o.align as u64 {
                return bad(format!("dealloc layout ({},{}) differs from alloc ({},{})", s, a, o.size, o.align));
            }
        }
        if kind == Kind::Heap {
            self.live_heap -= 1;
        }
        let sl = &mut self.slots[k];
        sl.obj = None;
        if sl.gen < 2047 {
            sl.gen += 1;
            self.free.push(k as u32);
        }
        Ok(())
    }
    fn inst_global(&mut self, m: &Module, g: usize) -> Rc<Obj> {
        if let Some(o) = &self.globals[g] {
            return o.clone();
        }
        let d = &m.globals[g];
        let o = Rc::new(Obj {
            size: d.size as u32,
            align: d.align,
            kind: Kind::Global,
            ro: d.constant,
            data: d.data.clone(),
            sh: if d.sh.is_empty() { vec![1; d.size as usize] } else { d.sh.clone() },
            syms: Vec::new(),
        });
        self.globals[g] = Some(o.clone());
        o
    }
    /// The object a pointer points into, its offset; checks bounds.
    fn get(&mut self, m: &Module, p: u64, n: u64, align: u64) -> MR<(usize, u32)> {
        let s = (p >> 32) & 0xfffff;
        let off = p & 0xffff_ffff;
        if p >> 32 == 0 {
            return bad(format!("access through null or dangling pointer {:#x}", p));
        }
        if s >= GLOBAL_BASE && s < self.base() {
            let g = (s - GLOBAL_BASE) as usize;
            let sz = m.globals[g].size;
            if off + n > sz {
                return bad(format!("out of bounds: {}+{} of global {} of {} bytes", off, n, m.globals[g].name, sz));
            }
            self.inst_global(m, g);
            return Ok((usize::MAX - g, off as u32));
        }
        if s == FUNC_SLOT || s == 2 {
            return bad("data access to a function or external symbol".into());
        }
        let k = self.find(p)?;
        let o = self.slots[k].obj.as_ref().unwrap();
        if off + n > o.size as u64 {
            return bad(format!("out of bounds: offset {} size {} of {:?} object of {} bytes", off as i32, n, o.kind, o.size));
        }
        if align > 1 && (off % align != 0 || align > o.align as u64) {
            return bad(format!("misaligned access: offset {} align {} object align {}", off, align, o.align));
        }
        Ok((k, off as u32))
    }
    fn r(&self, k: usize) -> &Rc<Obj> {
        if k > usize::MAX / 2 {
            self.globals[usize::MAX - k].as_ref().unwrap()
        } else {
            self.slots[k].obj.as_ref().unwrap()
        }
    }
    fn wr(&mut self, k: usize) -> MR<&mut Obj> {
        let o = if k > usize::MAX / 2 {
            self.globals[usize::MAX - k].as_mut().unwrap()
        } else {
            self.slots[k].obj.as_mut().unwrap()
        };
        if o.ro {
            return bad("write to a constant".into());
        }
        Ok(Rc::make_mut(o))
    }
    pub fn size_of(&self, p: u64) -> MR<(u64, u64)> {
        let k = self.find(p)?;
        let o = self.slots[k].obj.as_ref().unwrap();
        Ok((o.size as u64, o.align as u64))
    }

    /// load of `w` bits
    pub fn load(&mut self, m: &Module, c: &mut Ctx, p: u64, w: u32, align: u64) -> MR<Val> {
        let n = (w + 7) / 8;
        let (k, off) = self.get(m, p, n as u64, align)?;
        let o = self.r(k);
        let (a, b) = (off as usize, (off + n) as usize);
        if o.sh[a..b].iter().all(|s| *s == 1) {
            if n <= 8 {
                let mut v = 0u64;
                for i in (a..b).rev() {
                    v = v << 8 | o.data[i] as u64;
                }
                return Ok(Val::I(m64(v, w)));
            }
            let mut v = 0u128;
            for i in (a..b).rev() {
                v = v << 8 | o.data[i] as u128;
            }
            return Ok(Val::S(c.cst128(v, w)));
        }
        if o.sh[a..b].iter().all(|s| *s == 0) {
            return Ok(Val::S(c.undef(w)));
        }
        let full = 8 * n;
        let i = o.syms.partition_point(|s| s.0 < off);
        let e = if i < o.syms.len() && o.syms[i].0 == off && o.syms[i].1 == n {
            o.syms[i].2
        } else {
            // assemble
            let mut parts: Vec<E> = Vec::new(); // from least significant
            let mut i = a;
            while i < b {
                match o.sh[i] {
                    1 => {
                        let mut j = i;
                        let mut v = 0u64;
                        while j < b && o.sh[j] == 1 && j - i < 8 {
                            v |= (o.data[j] as u64) << (8 * (j - i));
                            j += 1;
                        }
                        parts.push(c.cst(v, 8 * (j - i) as u32));
                        i = j;
                    }
                    0 => {
                        let mut j = i;
                        while j < b && o.sh[j] == 0 {
                            j += 1;
                        }
                        parts.push(c.undef(8 * (j - i) as u32));
                        i = j;
                    }
                    _ => {
                        let q = o.syms.partition_point(|s| s.0 <= i as u32) - 1;
                        let (so, sl, se) = o.syms[q];
                        let from = i as u32 - so;
                        let to = (b as u32).min(so + sl) - so;
                        parts.push(c.extract(se, 8 * from, 8 * (to - from)));
                        i = (so + to) as usize;
                    }
                }
            }
            let mut e = parts[0];
            for x in &parts[1..] {
                e = c.concat(*x, e);
            }
            e
        };
        let e = if full != w { c.extract(e, 0, w) } else { e };
        Ok(mkval(c, e))
    }
    pub fn store(&mut self, m: &Module, c: &mut Ctx, p: u64, w: u32, align: u64, v: &Val) -> MR<()> {
        let n = (w + 7) / 8;
        let (k, off) = self.get(m, p, n as u64, align)?;
        let o = self.wr(k)?;
        o.clear(c, off, n);
        let (a, b) = (off as usize, (off + n) as usize);
        match v {
            Val::I(x) => {
                for i in 0..n as usize {
                    o.data[a + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
                    o.sh[a + i] = 1;
                }
            }
            Val::S(e) => {
                let e = if 8 * n != w { c.zext(*e, 8 * n) } else { *e };
                let nd = c.n[e as usize];
                if nd.o == O::Undef {
                    o.sh[a..b].fill(0);
                } else if nd.o == O::Const {
                    let x = c.kst128(e).unwrap();
                    for i in 0..n as usize {
                        o.data[a + i] = (x >> (8 * i)) as u8;
                        o.sh[a + i] = 1;
                    }
                } else {
                    o.sh[a..b].fill(2);
                    let q = o.syms.partition_point(|s| s.0 < off);
                    o.syms.insert(q, (off, n, e));
                    if nd.undef || nd.o == O::Concat {
                        // keep the defined parts separate
                        o.split(c, q);
                    }
                }
            }
            Val::A(_) => return Err(Err::Unsup("aggregate store".into())),
        }
        Ok(())
    }
    pub fn copy(&mut self, m: &Module, c: &mut Ctx, d: u64, s: u64, n: u64, overlap_ok: bool) -> MR<()> {
        if n == 0 {
            return Ok(());
        }
        let (ks, os) = self.get(m, s, n, 1)?;
        let (kd, od) = self.get(m, d, n, 1)?;
        let n = n as u32;
        if ks == kd && !overlap_ok && os != od && os < od + n && od < os + n {
            return bad("memcpy of overlapping ranges".into());
        }
        if ks == kd && os == od {
            return Ok(());
        }
        let so = self.r(ks).clone();
        let (a, b) = (os as usize, (os + n) as usize);
        let mut moved: Vec<(u32, u32, E)> = Vec::new();
        if !so.syms.is_empty() {
            for (o, l, e) in &so.syms {
                let (lo, hi) = ((*o).max(os), (o + l).min(os + n));
                if lo < hi {
                    let x = if hi - lo == *l { *e } else { c.extract(*e, 8 * (lo - o), 8 * (hi - lo)) };
                    moved.push((lo - os + od, hi - lo, x));
                }
            }
        }
        let dobj = self.wr(kd)?;
        dobj.clear(c, od, n);
        let x = od as usize;
        dobj.data[x..x + n as usize].copy_from_slice(&so.data[a..b]);
        dobj.sh[x..x + n as usize].copy_from_slice(&so.sh[a..b]);
        if !moved.is_empty() {
            let q = dobj.syms.partition_point(|s| s.0 < od);
            dobj.syms.splice(q..q, moved);
            // a partial copy can leave constants or undefined parts
            let mut i = 0;
            while i < dobj.syms.len() {
                let nd = &c.n[dobj.syms[i].2 as usize];
                if nd.o == O::Const || nd.o == O::Undef {
                    dobj.split(c, i);
                } else {
                    i += 1;
                }
            }
        }
        Ok(())
    }
    pub fn set(&mut self, m: &Module, c: &mut Ctx, d: u64, v: u8, n: u64) -> MR<()> {
        if n == 0 {
            return Ok(());
        }
        let (k, off) = self.get(m, d, n, 1)?;
        let o = self.wr(k)?;
        o.clear(c, off, n as u32);
        let (a, b) = (off as usize, off as usize + n as usize);
        o.data[a..b].fill(v);
        o.sh[a..b].fill(1);
        Ok(())
    }
}

pub fn mkval(c: &Ctx, e: E) -> Val {
    let n = &c.n[e as usize];
    if n.o == O::Const && n.w <= 64 {
        Val::I(n.k)
    } else {
        Val::S(e)
    }
}
