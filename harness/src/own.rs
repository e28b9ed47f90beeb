//! C14-C17: clones, ownership, memory and panicking callbacks.
use crate::hb::*;
use crate::hist::*;
use crate::joins::AnyJoin;
use crate::query::{answers, AnyFilter, AnyRank, OptRank};
use crate::snap::*;
use crate::sym::*;
use rusty_rtree::bounds::Bounded;
use rusty_rtree::filter::{JoinFilter, NoFilter, SpatialFilter};
use rusty_rtree::ranking::Ranking;
use rusty_rtree::*;

fn setup() -> Setup {
    Setup { max: param(1) as usize, min: param(2) as usize, n: param(3), seed: param(4), geo: param(5), rm: param(6) }
}
fn volume(v: i64) {
    g().vol = match v {
        0 => Vol::Build,
        1 => Vol::Any,
        _ => Vol::Geo,
    };
}
fn same_snap<const D: usize>(a: &Snap<D>, b: &Snap<D>, what: &str) {
    ck(c(14), a.order == b.order && a.nodes.len() == b.nodes.len(), what);
    let mut same = true;
    for (x, y) in a.nodes.iter().zip(&b.nodes) {
        ck(c(14), x.keys == y.keys && x.below == y.below, what);
        same = same & x.b.same(&y.b);
    }
    ck(c(14), same, what);
}

// ------------------------------------------------------------------ C14

/// One operation; its result as a value.
fn apply<const D: usize, V: HV>(t: &mut Tree<D, V>, op: i64, q: HQ<D>) -> Option<i64> {
    let v = 100 + q.id as i64;
    match op {
        1 => {
            t.insert(HK::from_q(q), V::mk(v));
            None
        }
        2 => t.insert_unique(HK::from_q(q), V::mk(v)).map(|x| x.get()),
        3 | 9 => t.remove(&q).map(|x| x.get()),
        4 => t.get(&q).map(|x| x.get()),
        _ => t.get_mut(&q).map(|x| {
            let o = x.get();
            x.set(500 + o);
            o
        }),
    }
}

fn clone<const D: usize, V: HV + Clone>(s: &Setup, vol: i64, script: i64, side: bool) {
    let (t, m) = build::<D, V>(s, 0);
    let mut keys: Vec<HQ<D>> = Vec::new();
    for k in &m.keys {
        keys.push(k.copy());
    }
    volume(vol);
    let u = t.clone();
    let before = read(&t);
    ck(c(14), before == m.obs, "cloning changed the original");
    ck(c(14), read(&u) == before, "a clone holds other entries, or in another order");
    ck(c(14), u.len() == t.len() && u.is_empty() == t.is_empty(), "a clone has another length");
    let sn = snap(&t);
    same_snap(&sn, &snap(&u), "a clone has another structure");
    // mutate one first, look at the other, then do the same to the other
    let (mut a, mut b) = if side { (u, t) } else { (t, u) };
    let s2 = Setup { max: s.max, min: s.min, n: s.n + 8, seed: param(11), geo: 0, rm: 0 };
    let mut i = s.n;
    let mut sc = script;
    let mut ra: Vec<(i64, HQ<D>, Option<i64>)> = Vec::new();
    while sc > 0 {
        let op = sc % 10;
        sc /= 10;
        let q = if op == 9 {
            let now = read(&a);
            if now.is_empty() {
                continue;
            }
            keys[now[choice(now.len())].0 as usize].copy()
        } else {
            let q = new_key::<D>(&s2, i, keys.len() as u32);
            keys.push(q.copy());
            q
        };
        i += 1;
        let r = apply(&mut a, op, q.copy());
        ra.push((op, q, r));
    }
    ck(c(14), read(&b) == before, "changing one copy changed the entries of the other");
    same_snap(&sn, &snap(&b), "changing one copy changed the structure of the other");
    let after = read(&a);
    let sa = snap(&a);
    for (op, q, r) in ra {
        let rb = apply(&mut b, op, q);
        if r.is_some() {
            cover(50);
        }
        ck(c(14), r == rb, "the copies answer the same operation differently");
    }
    ck(c(14), read(&b) == after, "the same operations left the copies with different entries");
    same_snap(&sa, &snap(&b), "the same operations left the copies with different structures");
    if boolean() {
        drop(a);
        ck(c(14), read(&b) == after, "dropping one copy changed the other");
        let k = keys[0].copy();
        let _ = apply(&mut b, 3, k);
    } else {
        drop(b);
        ck(c(14), read(&a) == after, "dropping one copy changed the other");
        let k = keys[0].copy();
        let _ = apply(&mut a, 3, k);
    }
    cover(9);
}

/// params: prop max min n seed geo rm variant vol script side opseed
#[no_mangle]
pub extern "C" fn h_clone() {
    start();
    let s = setup();
    let (vol, script, side) = (param(8), param(9), param(10) != 0);
    match param(7) {
        0 => clone::<1, i64>(&s, vol, script, side),
        1 => clone::<2, i64>(&s, vol, script, side),
        _ => clone::<1, TV>(&s, vol, script, side),
    }
    ck(c(14), live_tokens() == 0, "a key or value of one of the copies is never dropped");
    ck(c(14), live() == 0, "memory of one of the copies is not released");
}

// ------------------------------------------------------------------ C15

/// Uses an iterator of every kind and abandons it after some steps.
fn abandon(t: &mut Tree<1, TV>, o: &Tree<1, TV>, kind: usize, steps: usize) {
    macro_rules! go {
        ($it:expr) => {{
            let mut it = $it;
            for _ in 0..steps {
                if it.next().is_none() {
                    cover(52);
                    break;
                }
            }
            cover(51);
        }};
    }
    match kind {
        0 => go!(t.iter()),
        1 => go!(t.iter_mut()),
        2 => go!(t.filter_iter::<HQ<1>, _>(AnyFilter)),
        3 => go!(t.filter_iter_mut::<HQ<1>, _>(AnyFilter)),
        4 => go!(t.iter_asc_by(AnyRank)),
        5 => go!(t.iter_asc_by_mut(AnyRank)),
        6 => go!(t.filter_iter_asc_by(OptRank)),
        7 => go!(t.filter_iter_asc_by_mut(OptRank)),
        8 => go!(t.join::<_, _, _, HQ<1>, HQ<1>, _>(o, AnyPair)),
        9 => go!(t.left_join::<_, _, _, HQ<1>, HQ<1>, _>(o, AnyPair)),
        10 => {
            // inner iterators outlive the outer one
            let mut inner = Vec::new();
            let mut it = t.left_join::<_, _, _, HQ<1>, HQ<1>, _>(o, AnyPair);
            for _ in 0..steps {
                match it.next() {
                    None => break,
                    Some((_, i)) => inner.push(i),
                }
            }
            let mut last = inner.pop();
            drop(it);
            drop(inner);
            if let Some(i) = last.as_mut() {
                i.next();
                cover(53);
            }
        }
        11 => {
            let _ = t.min_by(AnyRank);
        }
        12 => {
            let _ = t.filter_min_by(OptRank);
        }
        _ => {
            let u = t.clone();
            ck(c(15), live_tokens() == 2 * (u.len() + t.len() + o.len()), "cloning dropped or leaked a key or value");
        }
    }
}
pub const KINDS: usize = 14;
/// Matches everything.
#[derive(Clone, Copy)]
pub struct AnyPair;
impl<B, C, K, L> JoinFilter<B, C, K, L> for AnyPair {
    fn test_bounds(&self, _: &B, _: &C) -> bool {
        tick();
        true
    }
    fn test_key(&self, _: &K, _: &L) -> bool {
        tick();
        true
    }
}

fn own(s: &Setup, vol: i64, mut script: i64) {
    let (mut t, m) = build::<1, TV>(s, 0);
    let (o, mo) = build::<1, TV>(&Setup { max: 2, min: 1, n: 3, seed: 0, geo: 1, rm: 0 }, 24);
    ck(c(15), live_tokens() == 2 * (t.len() + o.len()), "the keys and values alive are not those of the entries stored");
    let mut keys: Vec<HQ<1>> = Vec::new();
    for k in &m.keys {
        keys.push(k.copy());
    }
    drop(mo);
    let s2 = Setup { max: s.max, min: s.min, n: s.n + 8, seed: param(9), geo: 0, rm: 0 };
    volume(vol);
    let mut i = s.n;
    while script > 0 {
        let op = script % 10;
        script /= 10;
        let mut ex = 0;
        match op {
            8 => {
                answers(&m, &t, true, true, 0);
                let l0 = live();
                let kind = choice(KINDS);
                let steps = choice(4);
                abandon(&mut t, &o, kind, steps);
                ck(c(15), live() == l0, "an abandoned iterator does not release its memory");
            }
            9 => {
                let now = read(&t);
                if !now.is_empty() {
                    let q = keys[now[choice(now.len())].0 as usize].copy();
                    let r = t.remove(&q);
                    ex = r.is_some() as usize;
                    ck(c(15), live_tokens() == 2 * (t.len() + o.len()) + ex, "remove dropped or leaked another key or value");
                    cover(54);
                }
            }
            _ => {
                let q = new_key::<1>(&s2, i, keys.len() as u32);
                i += 1;
                keys.push(q.copy());
                let v = 100 + q.id as i64;
                match op {
                    1 => t.insert(HK::from_q(q), TV::mk(v)),
                    2 => {
                        let r = t.insert_unique(HK::from_q(q), TV::mk(v));
                        ex = r.is_some() as usize;
                        if ex == 1 {
                            cover(55);
                        }
                        ck(c(15), live_tokens() == 2 * (t.len() + o.len()) + ex, "insert_unique dropped or leaked a key or value");
                    }
                    3 => {
                        let r = t.remove(&q);
                        ex = r.is_some() as usize;
                        ck(c(15), live_tokens() == 2 * (t.len() + o.len()) + ex, "remove dropped or leaked another key or value");
                    }
                    4 => {
                        let k = HK::from_q(q);
                        let _ = t.get(&k);
                    }
                    _ => {
                        if let Some(v) = t.get_mut(&q) {
                            *v = TV::mk(7);
                        }
                    }
                }
            }
        }
        let _ = ex;
        ck(c(15), live_tokens() == 2 * (t.len() + o.len()), "the keys and values alive are not those of the entries stored");
    }
    // what is left is dropped with the tree; nothing was dropped before
    for (k, v) in t.iter() {
        ck(c(15), k.tok.is_live() & v.tok.is_live(), "a stored key or value was already dropped");
    }
    drop(t);
    ck(c(15), live_tokens() == 2 * o.len(), "dropping a tree leaves keys or values alive");
    cover(9);
}

/// params: prop max min n seed geo rm vol script opseed
#[no_mangle]
pub extern "C" fn h_own() {
    start();
    own(&setup(), param(7), param(8));
    ck(c(15), live_tokens() == 0, "a key or value is never dropped");
    ck(c(15), live() == 0, "memory is not released");
}

// ------------------------------------------------------------------ C16

pub trait MK: Bounded<HB<1>> + Eq + Clone + 'static {
    fn mk(x: i64) -> Self;
}
pub trait MV: Clone + 'static {
    fn mk(x: i64) -> Self;
    fn ok(&self, x: i64) -> bool;
}
/// zero-sized key: all keys are equal
#[derive(PartialEq, Eq, Clone)]
pub struct ZK;
impl Bounded<HB<1>> for ZK {
    fn bounds(&self) -> HB<1> {
        HB { lo: [3], hi: [4], mask: 1, bid: 0 }
    }
}
impl MK for ZK {
    fn mk(_: i64) -> Self {
        ZK
    }
}
#[derive(Clone)]
pub struct NK(i64);
impl PartialEq for NK {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for NK {}
impl Bounded<HB<1>> for NK {
    fn bounds(&self) -> HB<1> {
        HB { lo: [self.0], hi: [self.0 + 1], mask: 1, bid: 0 }
    }
}
impl MK for NK {
    fn mk(x: i64) -> Self {
        NK(x)
    }
}
#[repr(align(64))]
#[derive(Clone, PartialEq, Eq)]
pub struct AK(i64);
impl Bounded<HB<1>> for AK {
    fn bounds(&self) -> HB<1> {
        HB { lo: [self.0], hi: [self.0], mask: 1, bid: 0 }
    }
}
impl MK for AK {
    fn mk(x: i64) -> Self {
        AK(x)
    }
}
/// key with a heap block
#[derive(Clone, PartialEq, Eq)]
pub struct BK(Box<i64>);
impl Bounded<HB<1>> for BK {
    fn bounds(&self) -> HB<1> {
        HB { lo: [*self.0], hi: [*self.0 + 2], mask: 1, bid: 0 }
    }
}
impl MK for BK {
    fn mk(x: i64) -> Self {
        BK(Box::new(x))
    }
}
#[derive(Clone)]
pub struct ZV;
impl MV for ZV {
    fn mk(_: i64) -> Self {
        ZV
    }
    fn ok(&self, _: i64) -> bool {
        true
    }
}
#[repr(align(128))]
#[derive(Clone)]
pub struct AV(u8);
impl MV for AV {
    fn mk(x: i64) -> Self {
        AV(x as u8)
    }
    fn ok(&self, x: i64) -> bool {
        self.0 == x as u8
    }
}
#[derive(Clone)]
pub struct LV([i64; 9]);
impl MV for LV {
    fn mk(x: i64) -> Self {
        LV([x; 9])
    }
    fn ok(&self, x: i64) -> bool {
        let mut r = true;
        for y in self.0 {
            r = r & (y == x);
        }
        r
    }
}
#[derive(Clone)]
pub struct BV(u8);
impl MV for BV {
    fn mk(x: i64) -> Self {
        BV(x as u8)
    }
    fn ok(&self, x: i64) -> bool {
        self.0 == x as u8
    }
}
impl MV for Vec<i64> {
    fn mk(x: i64) -> Self {
        vec![x, x + 1]
    }
    fn ok(&self, x: i64) -> bool {
        self[0] == x && self[1] == x + 1
    }
}
struct Yes;
impl<K> SpatialFilter<HB<1>, K> for Yes {
    fn test_bounds(&self, b: &HB<1>) -> bool {
        b.lo[0] <= b.hi[0]
    }
    fn test_key(&self, _: &K) -> bool {
        true
    }
}
struct ByLo;
impl<K: MK> Ranking<HB<1>, K> for ByLo {
    type Metric = i64;
    fn bounds_min(&self, b: &HB<1>) -> i64 {
        b.lo[0]
    }
    fn rank_key(&self, k: &K) -> i64 {
        k.bounds().lo[0]
    }
}
struct OptLo;
impl<K: MK> Ranking<HB<1>, K> for OptLo {
    type Metric = Option<i64>;
    fn bounds_min(&self, b: &HB<1>) -> Option<i64> {
        Some(b.lo[0])
    }
    fn rank_key(&self, k: &K) -> Option<i64> {
        if k.bounds().lo[0] % 3 == 0 {
            None
        } else {
            Some(k.bounds().lo[0])
        }
    }
}

/// Any sequence of `steps` calls on a tree of `n` entries.
fn mem<K: MK, V: MV>(max: usize, min: usize, n: i64, steps: i64, ops: i64, seed: i64) {
    type T<K, V> = RTree<HB<1>, K, V>;
    let mut t: T<K, V> = RTree::new(config(max, min));
    g().vol = Vol::Geo;
    let zst = std::mem::size_of::<K>() == 0;
    let mut count = 0i64;
    for i in 0..n {
        let p = position(seed, i, n.max(1));
        t.insert(K::mk(p), V::mk(p));
        count += 1;
    }
    ck(c(16), t.len() as i64 == count, "len() is not the number of entries");
    let mut o: T<K, V> = RTree::new(config(2, 1));
    o.insert(K::mk(1), V::mk(1));
    o.insert(K::mk(7), V::mk(7));
    o.insert(K::mk(3), V::mk(3));
    let val = |k: &K| if zst { 0 } else { k.bounds().lo[0] };
    for _ in 0..steps {
        let (op, k) = match ops {
            0 => (choice(16) as i64, choice(3)),
            x => (x - 1, choice(4)),
        };
        match op {
            0 => {
                let p = int(-20, 20);
                t.insert(K::mk(p), V::mk(p));
                count += 1;
            }
            1 => {
                let p = int(-20, 200);
                if t.insert_unique(K::mk(p), V::mk(p)).is_none() {
                    count += 1;
                }
            }
            2 => {
                let p = int(-20, 200);
                if let Some(v) = t.remove(&K::mk(p)) {
                    count -= 1;
                    ck(c(16), zst | v.ok(p), "a value read back is damaged");
                }
            }
            3 => {
                let p = int(-20, 200);
                if let Some(v) = t.get(&K::mk(p)) {
                    ck(c(16), zst | v.ok(p), "a value read back is damaged");
                }
            }
            4 => {
                let p = int(-20, 200);
                if let Some(v) = t.get_mut(&K::mk(p)) {
                    *v = V::mk(p);
                }
            }
            5 => {
                let mut m = 0;
                for (k, v) in t.iter() {
                    ck(c(16), zst | v.ok(val(k)), "a value read back is damaged");
                    m += 1;
                }
                ck(c(16), m == count, "iteration does not yield every entry");
                cover(60);
            }
            6 => {
                let mut all = Vec::new();
                for (k, v) in t.iter_mut() {
                    all.push((k, v));
                }
                ck(c(16), all.len() as i64 == count, "iteration does not yield every entry");
                for (k, v) in all {
                    let x = val(k);
                    *v = V::mk(x);
                }
            }
            7 => {
                // forgotten part-way
                let mut it = t.iter();
                for _ in 0..k {
                    let _ = it.next();
                }
                std::mem::forget(it);
            }
            8 => {
                let mut it = t.filter_iter_mut::<K, _>(Yes);
                for _ in 0..k {
                    let _ = it.next();
                }
                std::mem::forget(it);
            }
            9 => {
                let mut it = t.iter_asc_by_mut(ByLo);
                let mut held = Vec::new();
                for _ in 0..k + 1 {
                    if let Some((key, v)) = it.next() {
                        held.push((key, v));
                    }
                }
                if k == 1 {
                    std::mem::forget(it);
                } else {
                    drop(it);
                }
                for (k, v) in held {
                    *v = V::mk(val(k));
                }
            }
            10 => {
                let mut m = 0;
                for (k, v) in t.filter_iter_asc_by(OptLo) {
                    ck(c(16), zst | v.ok(val(k)), "a value read back is damaged");
                    m += 1;
                }
                ck(c(16), m <= count, "more entries than there are");
            }
            11 => {
                let mut m = 0;
                let mut it = t.join::<_, _, _, K, K, _>(&o, AnyPair);
                while let Some((a, b)) = it.next() {
                    ck(c(16), zst | (a.1.ok(val(&a.0)) & b.1.ok(val(&b.0))), "a value read back is damaged");
                    m += 1;
                    if k == 2 && m == 2 {
                        break;
                    }
                }
                ck(c(16), k == 2 || m == 3 * count, "join does not yield every pair");
                drop(it);
                let mut m = 0;
                for (a, b) in o.join::<_, _, _, K, K, _>(&t, AnyPair) {
                    ck(c(16), zst | (a.1.ok(val(&a.0)) & b.1.ok(val(&b.0))), "a value read back is damaged");
                    m += 1;
                }
                ck(c(16), m == 3 * count, "join does not yield every pair");
            }
            12 => {
                let mut keep = Vec::new();
                let mut it = t.left_join::<_, _, _, K, K, _>(&o, AnyPair);
                let mut m = 0;
                while let Some(((a, v), mut inner)) = it.next() {
                    ck(c(16), zst | v.ok(val(a)), "a value read back is damaged");
                    m += 1;
                    let _ = inner.next();
                    if m % 2 == k as i64 % 2 {
                        keep.push(inner);
                    } else if k == 2 {
                        std::mem::forget(inner);
                    }
                }
                ck(c(16), m == count, "left_join does not yield every left entry");
                if k == 1 {
                    std::mem::forget(it);
                } else {
                    drop(it);
                }
                for mut i in keep {
                    let mut m = 1;
                    while let Some((a, v)) = i.next() {
                        ck(c(16), zst | v.ok(val(a)), "a value read back is damaged");
                        m += 1;
                    }
                    ck(c(16), m == 3, "left_join does not yield every right entry");
                }
                // and the other way round: inner iterators over the larger tree
                let mut keep = Vec::new();
                for ((a, v), inner) in o.left_join::<_, _, _, K, K, _>(&t, AnyPair) {
                    ck(c(16), zst | v.ok(val(a)), "a value read back is damaged");
                    keep.push(inner);
                }
                ck(c(16), keep.len() == 3, "left_join does not yield every left entry");
                for mut i in keep {
                    let mut m = 0;
                    while let Some((a, v)) = i.next() {
                        ck(c(16), zst | v.ok(val(a)), "a value read back is damaged");
                        m += 1;
                    }
                    ck(c(16), m == count, "left_join does not yield every right entry");
                }
            }
            13 => {
                let u = t.clone();
                ck(c(16), u.len() as i64 == count, "a clone has another length");
                if k == 0 {
                    t = u;
                } else if k == 1 {
                    std::mem::forget(u);
                }
            }
            14 => {
                // moved while borrowed iterators are gone
                let b = Box::new(t);
                t = *b;
            }
            _ => {
                let e: T<K, V> = RTree::new(config(max, min));
                t = e;
                count = 0;
            }
        }
        ck(c(16), t.len() as i64 == count, "len() is not the number of entries");
    }
    let mut m = 0;
    for (k, v) in t.filter_iter::<K, _>(NoFilter) {
        ck(c(16), zst | v.ok(val(k)), "a value read back is damaged");
        m += 1;
    }
    ck(c(16), m == count, "iteration does not yield every entry");
    cover(9);
}

/// params: prop max min n seed steps ops types
#[no_mangle]
pub extern "C" fn h_mem() {
    start();
    let (max, min, n, seed, steps, ops) = (param(1) as usize, param(2) as usize, param(3), param(4), param(5), param(6));
    match param(7) {
        0 => mem::<ZK, ZV>(max, min, n, steps, ops, seed),
        1 => mem::<NK, ZV>(max, min, n, steps, ops, seed),
        2 => mem::<ZK, LV>(max, min, n, steps, ops, seed),
        3 => mem::<AK, AV>(max, min, n, steps, ops, seed),
        4 => mem::<BK, Vec<i64>>(max, min, n, steps, ops, seed),
        5 => mem::<NK, LV>(max, min, n, steps, ops, seed),
        _ => mem::<NK, BV>(max, min, n, steps, ops, seed),
    }
}

// ------------------------------------------------------------------ C17

fn panics(s: &Setup, op: i64, opseed: i64, max: i64, later: i64) {
    let (mut t, m) = build::<1, TV>(s, 0);
    let (o, _) = build::<1, TV>(&Setup { max: 2, min: 1, n: 3, seed: 0, geo: 1, rm: 0 }, 24);
    let s2 = Setup { max: s.max, min: s.min, n: s.n + 8, seed: opseed, geo: s.geo, rm: 0 };
    answers(&m, &t, true, true, 0);
    let id = m.keys.len() as u32;
    let q = new_key::<1>(&s2, s.n, id);
    let stored = if m.obs.is_empty() { q.copy() } else { m.keys[m.obs[choice(m.obs.len())].0 as usize].copy() };
    let mut u: Option<Tree<1, TV>> = None;
    arm(max);
    let hit = catch(|| match op {
        1 => t.insert(HK::from_q(q.copy()), TV::mk(1)),
        2 => {
            let _ = t.insert_unique(HK::from_q(q.copy()), TV::mk(1));
        }
        3 => {
            let mut p = stored.copy();
            p.id = id;
            let _ = t.insert_unique(HK::from_q(p), TV::mk(1));
        }
        4 => {
            let _ = t.remove(&stored);
        }
        5 => {
            let _ = t.get(&stored);
            if let Some(v) = t.get_mut(&stored) {
                v.set(5);
            }
        }
        6 => u = Some(t.clone()),
        7 => {
            for (_, v) in t.filter_iter_mut::<HQ<1>, _>(AnyFilter) {
                v.set(6);
            }
        }
        8 => {
            for (_, v) in t.filter_iter_asc_by_mut(OptRank) {
                v.set(6);
            }
            for _ in t.iter_asc_by(AnyRank) {}
        }
        9 => for _ in t.join::<_, _, _, HQ<1>, HQ<1>, _>(&o, AnyPair) {},
        10 => {
            let mut held = Vec::new();
            for (_, mut i) in t.left_join::<_, _, _, HQ<1>, HQ<1>, _>(&o, AnyPair) {
                i.next();
                held.push(i);
            }
            for mut i in held {
                while i.next().is_some() {}
            }
        }
        11 => {
            let _ = t.remove(&q);
        }
        _ => for _ in t.filter_iter::<HQ<1>, _>(AnyFilter) {},
    });
    if g().tick > max {
        cover(92);
    }
    disarm();
    if hit {
        cover(61);
    } else {
        cover(62);
    }
    // the tree can be iterated, queried and dropped
    let most = m.obs.len() + 1;
    for x in [Some(&t), u.as_ref(), Some(&o)].into_iter().flatten() {
        let mut n = 0;
        let mut seen = 0u64;
        for (k, v) in x.iter() {
            ck(c(17), k.tok.is_live(), "after a panic, a dropped key is still stored");
            ck(c(17), v.tok.is_live(), "after a panic, a dropped value is still stored");
            let _ = v.get();
            ck(c(17), seen >> k.q.id & 1 == 0, "after a panic, an entry is stored twice");
            seen |= 1 << k.q.id;
            n += 1;
            check(n <= most + 3, "after a panic, more entries than there are");
        }
        let mut n2 = 0;
        for (k, _) in x.filter_iter::<HQ<1>, _>(NoFilter) {
            ck(c(17), k.tok.is_live(), "after a panic, a dropped key is still stored");
            n2 += 1;
        }
        ck(c(17), n == n2, "after a panic, searches disagree");
        let _ = x.get(&stored);
        let _ = x.len();
        let mut n3 = 0;
        for _ in x.join::<_, _, _, HQ<1>, HQ<1>, _>(&o, AnyPair) {
            n3 += 1;
        }
        ck(c(17), n3 <= 3 * (most + 3), "after a panic, join yields more pairs than there are");
    }
    for (_, v) in t.iter_mut() {
        v.set(9);
    }
    let _ = t.iter_asc_by(ById).count();
    // and later operations drop nothing twice
    match later {
        1 => t.insert(HK::from_q(new_key::<1>(&s2, s.n + 1, id + 1)), TV::mk(2)),
        2 => {
            let _ = t.remove(&stored);
        }
        3 => {
            let w = t.clone();
            drop(t);
            t = w;
        }
        4 => {
            for k in [&stored, &q] {
                let mut p = k.copy();
                p.id = id + 1;
                let _ = t.insert_unique(HK::from_q(p), TV::mk(1));
            }
        }
        _ => {}
    }
    for (k, v) in t.iter() {
        ck(c(17), k.tok.is_live() & v.tok.is_live(), "after a panic, a dropped key or value is still stored");
    }
    drop(t);
    drop(u);
    drop(o);
    cover(9);
}
struct ById;
impl<const D: usize> Ranking<HB<D>, HK<D>> for ById {
    type Metric = i64;
    fn bounds_min(&self, _: &HB<D>) -> i64 {
        0
    }
    fn rank_key(&self, k: &HK<D>) -> i64 {
        k.q.id as i64
    }
}

/// params: prop max min n seed geo rm op opseed maxtick later
#[no_mangle]
pub extern "C" fn h_panic() {
    start();
    panics(&setup(), param(7), param(8), param(9), param(10));
    let _ = AnyJoin;
}
