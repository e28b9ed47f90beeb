//! C01-C06: histories of insert / insert_unique / remove, get and get_mut.
use crate::hb::*;
use crate::snap::*;
use crate::sym::*;
use rusty_rtree::*;

/// The list model of a history.
pub struct Model<const D: usize> {
    /// every key ever handed to the tree, by id
    pub keys: Vec<HQ<D>>,
    /// current entries in the tree's iteration order
    pub obs: Vec<(u32, i64)>,
}

pub fn read<const D: usize, V: HV>(t: &Tree<D, V>) -> Vec<(u32, i64)> {
    let mut v = Vec::new();
    for (k, x) in t.iter() {
        v.push((k.q.id, x.get()));
    }
    v
}
fn same_multiset(a: &[(u32, i64)], b: &[(u32, i64)]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut used = 0u64;
    for x in a {
        let mut hit = false;
        for j in 0..b.len() {
            if used >> j & 1 == 0 && b[j] == *x {
                used |= 1 << j;
                hit = true;
                break;
            }
        }
        if !hit {
            return false;
        }
    }
    true
}

/// Concrete build positions: they fix the shape of the tree.
pub fn position(seed: i64, i: i64, n: i64) -> i64 {
    match seed {
        0 => i * 2,
        1 => (n - i) * 2,
        2 => {
            if i % 2 == 0 {
                i
            } else {
                100 - i
            }
        }
        3 => 0,
        4 => 1 << i.min(30),
        5 => [0, 10, 1, 11, 20, 2, 21, 12, 3, 30, 22, 13, 31, 4, 32, 23, 40, 41, 14, 33][(i % 20) as usize],
        s => {
            let mut x = (s * 7919 + i * 104729 + 12345) as u64;
            x ^= x >> 7;
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            ((x >> 33) % (n as u64 * 3)) as i64
        }
    }
}

pub struct Setup {
    pub max: usize,
    pub min: usize,
    pub n: i64,
    pub seed: i64,
    /// 0: arbitrary geometry, 1: geometry = build position, 2: overlapping fixed boxes
    pub geo: i64,
    /// keys removed again during the build (bit set of ids)
    pub rm: i64,
}
pub fn config(max: usize, min: usize) -> RTreeConfig {
    RTreeConfig { max_children: max, min_children: min }
}
pub fn new_key<const D: usize>(s: &Setup, i: i64, id: u32) -> HQ<D> {
    let p = position(s.seed, i, s.n);
    g().pos[id as usize] = p;
    if s.geo == 0 {
        sym_q(id)
    } else if s.geo == 2 {
        // overlapping and nested boxes
        fix_q(id, p * 4, p * 4 + (i * 7 % 5) * 6)
    } else {
        fix_q(id, p * 4, p * 4 + 1)
    }
}
/// A tree of concrete shape over keys of arbitrary (or fixed) geometry.
/// Entry i has key id `base + i` and value 100 + id.
pub fn build<const D: usize, V: HV>(s: &Setup, base: u32) -> (Tree<D, V>, Model<D>) {
    let mut t: Tree<D, V> = RTree::new(config(s.max, s.min));
    let mut keys: Vec<HQ<D>> = Vec::new();
    g().vol = Vol::Build;
    if s.geo != 0 && 4 * s.n + 32 > g().span {
        // new keys may lie anywhere around the fixed ones
        g().span = 4 * s.n + 32;
    }
    for i in 0..base {
        keys.push(fix_q(i, 0, 0));
    }
    for i in 0..s.n {
        let id = base + i as u32;
        let q = new_key::<D>(s, i, id);
        keys.push(q.copy());
        t.insert(HK::from_q(q), V::mk(100 + id as i64));
    }
    for i in 0..s.n {
        if s.rm >> i & 1 == 1 {
            let id = base as usize + i as usize;
            // make the key distinguishable so that the build has one path
            for j in base as usize..keys.len() {
                if j != id {
                    assume(!keys[j].same(&keys[id]));
                }
            }
            let r = t.remove(&keys[id]);
            if r.is_none() {
                // a wrong removal is for the checks of C01 and C04
                ck(c(1) | c(4), false, "remove returned None for a stored key");
                assume(false);
            }
        }
    }
    let obs = read(&t);
    (t, Model { keys, obs })
}

/// The same calls as `build` made, with copies of its keys.
pub fn rebuild<const D: usize, V: HV>(s: &Setup, m: &Model<D>) -> Tree<D, V> {
    let mut t: Tree<D, V> = RTree::new(config(s.max, s.min));
    for i in 0..s.n {
        t.insert(HK::from_q(m.keys[i as usize].copy()), V::mk(100 + i));
    }
    for i in 0..s.n {
        if s.rm >> i & 1 == 1 {
            t.remove(&m.keys[i as usize]);
        }
    }
    t
}

/// first entry of `obs` with value x
fn at(obs: &[(u32, i64)], x: i64) -> usize {
    for i in 0..obs.len() {
        if obs[i].1 == x {
            return i;
        }
    }
    usize::MAX
}
/// Whether entry p is the first whose key equals `q` (symbolic).
fn first_eq<const D: usize>(m: &Model<D>, p: usize, q: &HQ<D>) -> bool {
    let mut r = m.keys[m.obs[p].0 as usize].same(q);
    for j in 0..p {
        r = r & !m.keys[m.obs[j].0 as usize].same(q);
    }
    r
}
fn none_eq<const D: usize>(m: &Model<D>, q: &HQ<D>) -> bool {
    let mut r = true;
    for e in &m.obs {
        r = r & !m.keys[e.0 as usize].same(q);
    }
    r
}

impl<const D: usize> Model<D> {
    pub fn insert<V: HV>(&mut self, t: &mut Tree<D, V>, q: HQ<D>) {
        let id = q.id;
        let v = 100 + id as i64;
        self.keys.push(q.copy());
        t.insert(HK::from_q(q), V::mk(v));
        let now = read(t);
        let mut want = self.obs.clone();
        want.push((id, v));
        ck(c(1), same_multiset(&now, &want), "insert: the entries are not the old ones plus the new one");
        self.obs = now;
        cover(1);
    }
    pub fn insert_unique<V: HV>(&mut self, t: &mut Tree<D, V>, q: HQ<D>) {
        let id = q.id;
        let v = 100 + id as i64;
        self.keys.push(q.copy());
        let r = t.insert_unique(HK::from_q(q), V::mk(v)).map(|x| x.get());
        let now = read(t);
        let q = self.keys[id as usize].copy();
        match r {
            None => {
                cover(2);
                ck(c(1) | c(3), none_eq(self, &q), "insert_unique returned None although an equal key is stored");
                let mut want = self.obs.clone();
                want.push((id, v));
                ck(c(1) | c(3), same_multiset(&now, &want), "insert_unique: the entries are not the old ones plus the new one");
            }
            Some(x) => {
                cover(3);
                let p = at(&self.obs, x);
                ck(c(1) | c(3), p != usize::MAX, "insert_unique returned a value that was not stored");
                if p != usize::MAX {
                    ck(c(3), first_eq(self, p, &q), "insert_unique did not replace the first entry with an equal key");
                    ck(c(1), self.keys[self.obs[p].0 as usize].same(&q), "insert_unique replaced the value of a different key");
                    let mut want = self.obs.clone();
                    want[p].1 = v;
                    let mut want2 = self.obs.clone();
                    want2[p] = (id, v);
                    ck(
                        c(1) | c(3),
                        same_multiset(&now, &want) || same_multiset(&now, &want2),
                        "insert_unique: other entries than the replaced one changed",
                    );
                }
            }
        }
        self.obs = now;
    }
    pub fn remove<V: HV>(&mut self, t: &mut Tree<D, V>, q: HQ<D>) {
        let g0 = if is(c(4)) { t.get(&q).map(|x| x.get()) } else { None };
        let r = t.remove(&q).map(|x| x.get());
        ck(c(4), g0 == r, "remove took out another entry than get reports");
        let now = read(t);
        match r {
            None => {
                cover(4);
                ck(c(1) | c(4), none_eq(self, &q), "remove returned None although an equal key is stored");
                ck(c(1) | c(4), same_multiset(&now, &self.obs), "remove of an absent key changed the entries");
            }
            Some(x) => {
                cover(5);
                let p = at(&self.obs, x);
                ck(c(1) | c(4), p != usize::MAX, "remove returned a value that was not stored");
                if p != usize::MAX {
                    ck(c(1) | c(4), self.keys[self.obs[p].0 as usize].same(&q), "remove took out an entry with a different key");
                    ck(c(4), first_eq(self, p, &q), "remove did not take out the first entry with an equal key");
                    let mut want = self.obs.clone();
                    want.remove(p);
                    ck(c(1) | c(4), same_multiset(&now, &want), "remove: the entries left are not the old ones without the removed one");
                }
            }
        }
        self.obs = now;
    }
    pub fn get<V: HV>(&mut self, t: &mut Tree<D, V>, q: HQ<D>, how: i64) {
        // how: 0 get(borrowed) 1 get(owned) 2 get_mut(borrowed) 3 get_mut(owned)
        let owned = HK::from_q(q.copy());
        let mut wrote = usize::MAX;
        let r = match how {
            0 => t.get(&q).map(|x| x.get()),
            1 => t.get(&owned).map(|x| x.get()),
            2 | _ => {
                let x = if how == 2 { t.get_mut(&q) } else { t.get_mut(&owned) };
                match x {
                    None => None,
                    Some(x) => {
                        let old = x.get();
                        x.set(777);
                        wrote = at(&self.obs, old);
                        Some(old)
                    }
                }
            }
        };
        match r {
            None => {
                cover(6);
                ck(c(2), none_eq(self, &q), "get returned None although an equal key is stored");
            }
            Some(x) => {
                cover(7);
                let p = at(&self.obs, x);
                ck(c(2), p != usize::MAX, "get returned a value that is not stored");
                if p != usize::MAX {
                    ck(c(2), first_eq(self, p, &q), "get did not return the first entry with an equal key");
                }
            }
        }
        let now = read(t);
        let mut want = self.obs.clone();
        if wrote != usize::MAX {
            want[wrote].1 = 777;
        }
        ck(c(2), now == want, "get/get_mut changed the entries other than through the returned reference");
        self.obs = now;
    }
    /// What holds after every operation.
    pub fn post<V: HV>(&self, t: &Tree<D, V>, s: &Setup) {
        if is(c(1)) {
            check(t.len() == self.obs.len(), "len() is not the number of entries");
            check(t.is_empty() == self.obs.is_empty(), "is_empty() disagrees with the number of entries");
            // keys still carry the geometry they were inserted with
            for (k, _) in t.iter() {
                check(k.q.same(&self.keys[k.q.id as usize]), "a stored key changed");
            }
        }
        if is(c(3)) {
            cover(8);
        }
        if is(c(5) | c(6)) {
            let sn = snap(t);
            sn.check_shape(s.max, s.min);
            sn.check_bounds(|id| &self.keys[id as usize]);
        }
    }
}

fn run<const D: usize, V: HV>(s: &Setup, vol: i64, mut script: i64, opseed: i64, uniq: bool) {
    {
        let (mut t, mut m) = build::<D, V>(s, 0);
        m.post(&t, s);
        g().vol = match vol {
            0 => Vol::Build,
            1 => Vol::Any,
            _ => Vol::Geo,
        };
        if vol == 3 {
            g().volmax = 7;
            g().vol = Vol::Any;
        }
        let mut i = s.n;
        let s2 = Setup { max: s.max, min: s.min, n: s.n + 8, seed: opseed, geo: 0, rm: 0 };
        let mut nops = 0;
        while script > 0 {
            let op = script % 10;
            script /= 10;
            let id = m.keys.len() as u32;
            let q = new_key::<D>(&s2, i, id);
            i += 1;
            match op {
                1 => m.insert(&mut t, q),
                2 => m.insert_unique(&mut t, q),
                3 => {
                    m.keys.push(q.copy());
                    m.remove(&mut t, q)
                }
                9 => {
                    // remove a key that is stored
                    let j = choice(m.obs.len().max(1));
                    if !m.obs.is_empty() {
                        let q = m.keys[m.obs[j].0 as usize].copy();
                        m.remove(&mut t, q)
                    }
                }
                _ => {
                    m.keys.push(q.copy());
                    m.get(&mut t, q, op - 4)
                }
            }
            m.post(&t, s);
            nops += 1;
        }
        if uniq {
            // filled through insert_unique only: all keys differ
            for a in 0..m.obs.len() {
                for b in 0..a {
                    ck(
                        c(3),
                        !m.keys[m.obs[a].0 as usize].same(&m.keys[m.obs[b].0 as usize]),
                        "a tree filled through insert_unique holds equal keys",
                    );
                }
            }
        }
        note(nops);
        cover(9);
        drop(t);
    }
    ck(c(15), live_tokens() == 0, "a key or value is never dropped");
}

/// params: prop max min n seed geo rm variant vol script opseed uniq
#[no_mangle]
pub extern "C" fn h_hist() {
    start();
    let s = Setup { max: param(1) as usize, min: param(2) as usize, n: param(3), seed: param(4), geo: param(5), rm: param(6) };
    let var = param(7);
    let vol = param(8);
    let script = param(9);
    let opseed = param(10);
    let uniq = param(11) != 0;
    g().sloppy = var >= 10;
    match var % 10 {
        0 => run::<1, i64>(&s, vol, script, opseed, uniq),
        1 => run::<2, i64>(&s, vol, script, opseed, uniq),
        _ => run::<1, TV>(&s, vol, script, opseed, uniq),
    }
    ck(c(15), live() == 0, "memory is not released");
}
