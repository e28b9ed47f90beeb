//! C23, C24: what a lookup compares, and where an insertion goes.
use crate::hb::*;
use crate::hist::*;
use crate::snap::*;
use crate::sym::*;
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use rusty_rtree::ranking::Ranking;

/// No key was compared below a node (other than the root) that cannot hold `q`,
/// and none after the entry `hit` in iteration order.
fn check_compared<const D: usize>(s: &Snap<D>, q: &HQ<D>, hit: Option<u32>, contain: bool) {
    let seen = g().cmp & s.all;
    let p = q.hb();
    for i in 0..s.nodes.len() {
        let n = &s.nodes[i];
        if n.keys == s.all && s.depth(i) == 0 {
            continue;
        }
        if n.keys & seen != 0 {
            cover(80);
            if contain {
                ck(c(23), n.b.raw_contains(&p), "a lookup compares a key below bounds that do not contain the key looked for");
            } else {
                ck(c(23), n.b.raw_intersects(&p), "remove compares a key below bounds that do not meet the key looked for");
            }
        } else {
            cover(81);
        }
    }
    if let Some(id) = hit {
        cover(82);
        let mut after = false;
        for o in &s.order {
            if after {
                ck(c(23), seen >> *o & 1 == 0, "a lookup goes on after the first equal key");
            }
            if *o == id {
                after = true;
            }
        }
    } else {
        cover(83);
    }
}

/// A key anywhere around the stored ones.
fn wide_q<const D: usize>(s: &Setup, id: u32) -> HQ<D> {
    if s.geo == 0 {
        return sym_q(id);
    }
    let mut q = HQ { lo: [0; D], hi: [0; D], id };
    for d in 0..D {
        q.lo[d] = int(0, 511);
        q.hi[d] = int(0, 511);
        assume(q.lo[d] <= q.hi[d]);
    }
    q
}

/// op: 0 get(borrowed) 1 get(owned) 2 get_mut 3 insert_unique 4 remove 5 get_mut(owned)
fn look<const D: usize, V: HV>(s: &Setup, op: i64, vol: i64) {
    let (mut t, m) = build::<D, V>(s, 0);
    g().vol = if vol == 0 { Vol::Build } else { Vol::Geo };
    let sn = snap(&t);
    let id = m.keys.len() as u32;
    let q = wide_q::<D>(s, id);
    g().pos[id as usize] = 1;
    let k = HK::from_q(q.copy());
    g().cmp = 0;
    let r = match op {
        0 => t.get(&q).map(|x| x.get()),
        1 => t.get(&k).map(|x| x.get()),
        2 => t.get_mut(&q).map(|x| x.get()),
        3 => t.insert_unique(k, V::mk(1)).map(|x| x.get()),
        4 => t.remove(&q).map(|x| x.get()),
        _ => t.get_mut(&k).map(|x| x.get()),
    };
    check_compared(&sn, &q, r.map(|v| (v - 100) as u32), op != 4);
    cover(9);
}

/// params: prop max min n seed geo rm dims op vol
#[no_mangle]
pub extern "C" fn h_look() {
    start();
    let s = Setup { max: param(1) as usize, min: param(2) as usize, n: param(3), seed: param(4), geo: param(5), rm: param(6) };
    match param(7) {
        1 => look::<1, i64>(&s, param(8), param(9)),
        _ => look::<2, i64>(&s, param(8), param(9)),
    }
}

/// The new entry `id` went down to the child that grows least, on every level.
fn check_placed<const D: usize>(a: &Snap<D>, b: &Snap<D>, q: &HQ<D>, ties: bool) {
    // the leaf whose key set is gone took the entry (or was split by it)
    let mut leaf = usize::MAX;
    for i in 0..a.nodes.len() {
        if a.nodes[i].below == 0 {
            let mut kept = false;
            for n in &b.nodes {
                kept = kept || (n.below == 0 && n.keys == a.nodes[i].keys);
            }
            if !kept {
                ck(c(24), leaf == usize::MAX, "inserting an entry changed two leaves");
                leaf = i;
            }
        }
    }
    if leaf == usize::MAX {
        // a full leaf was split into its old entries and the new one
        cover(86);
        return;
    }
    let p = q.hb();
    let mut n = leaf;
    loop {
        let up = a.parent(n);
        if up == usize::MAX && a.nodes[n].keys == a.all {
            break;
        }
        let u = HB::raw_union(&a.nodes[n].b, &p);
        let v = a.nodes[n].b.raw_volume();
        let grow = u.raw_volume() - v;
        for i in 0..a.nodes.len() {
            if i != n && a.parent(i) == up {
                cover(84);
                let u2 = HB::raw_union(&a.nodes[i].b, &p);
                let v2 = a.nodes[i].b.raw_volume();
                let grow2 = u2.raw_volume() - v2;
                ck(c(24), grow <= grow2, "an entry is inserted below a node that grows more than its sibling would");
                ck(c(24), !ties | (grow < grow2) | (v <= v2), "an entry is inserted below the larger of two nodes that grow alike");
            }
        }
        if up == usize::MAX {
            break;
        }
        n = up;
    }
}
fn place<const D: usize, V: HV>(s: &Setup, uniq: bool, vol: i64, ops: i64) {
    let (mut t, m) = build::<D, V>(s, 0);
    g().vol = match vol {
        1 => Vol::Any,
        _ => Vol::Geo,
    };
    let mut before = snap(&t);
    for i in 0..ops {
        let id = (m.keys.len() as i64 + i) as u32;
        let q = wide_q::<D>(s, id);
        if uniq {
            if t.insert_unique(HK::from_q(q.copy()), V::mk(100 + id as i64)).is_some() {
                cover(85);
                continue;
            }
        } else {
            t.insert(HK::from_q(q.copy()), V::mk(100 + id as i64));
        }
        let after = snap(&t);
        check_placed(&before, &after, &q, !uniq);
        before = after;
    }
    cover(9);
}

/// params: prop max min n seed geo rm dims uniq vol ops
#[no_mangle]
pub extern "C" fn h_place() {
    start();
    let s = Setup { max: param(1) as usize, min: param(2) as usize, n: param(3), seed: param(4), geo: param(5), rm: param(6) };
    match param(7) {
        1 => place::<1, i64>(&s, param(8) != 0, param(9), param(10)),
        _ => place::<2, i64>(&s, param(8) != 0, param(9), param(10)),
    }
}

/// One child of a node that was split: its extent and the node it went to.
struct Part {
    lo: i64,
    hi: i64,
    second: bool,
}
/// C28: two far apart groups of more than `min` children are split apart.
fn check_parts(parts: &mut [Part], min: usize) {
    let n = parts.len();
    for i in 1..n {
        let mut j = i;
        while j > 0 && parts[j].lo < parts[j - 1].lo {
            parts.swap(j, j - 1);
            j -= 1;
        }
    }
    for k in min + 1..n {
        if n - k <= min {
            break;
        }
        let ext = |p: &[Part]| {
            let (mut lo, mut hi) = (p[0].lo, p[0].hi);
            for x in p {
                lo = if x.lo < lo { x.lo } else { lo };
                hi = if x.hi > hi { x.hi } else { hi };
            }
            (lo, hi)
        };
        let (a, b) = (ext(&parts[..k]), ext(&parts[k..]));
        let gap = b.0 - a.1;
        if gap > a.1 - a.0 && gap > b.1 - b.0 {
            cover(90);
            let mut ok = true;
            for i in 1..n {
                ok &= (parts[i].second == parts[0].second) == (i < k);
            }
            ck(c(28), ok, "a split tears apart, or mixes, two well separated groups");
        }
    }
}
/// The two nodes of `after` that one node of `before` was split into, level by level.
fn check_splits(before: &Snap<1>, after: &Snap<1>, new: u32, min: usize, key: &dyn Fn(u32) -> (i64, i64)) {
    let bit = 1u64 << new;
    let old = |keys: u64| before.nodes.iter().any(|n| n.keys == keys);
    let leaves = before.nodes.iter().filter(|n| n.below == 0).count();
    let whole = leaves == 0 || before.nodes.len() == 1;
    let m = after.nodes.len();
    for i in 0..m {
        for j in i + 1..m {
            let (x, y) = (&after.nodes[i], &after.nodes[j]);
            if (x.below == 0) != (y.below == 0) || x.keys & y.keys != 0 || after.parent(i) != after.parent(j) {
                continue;
            }
            let both = x.keys | y.keys;
            if both & bit == 0 || !(old(both & !bit) || both & !bit == before.all) {
                continue;
            }
            if (x.keys == bit || y.keys == bit) && !whole {
                continue;
            }
            if !whole && old(x.keys & !bit) && old(y.keys & !bit) {
                continue;
            }
            let mut parts = Vec::new();
            if x.below == 0 {
                for id in 0..NKEY as u32 {
                    if both >> id & 1 == 1 {
                        let (lo, hi) = key(id);
                        parts.push(Part { lo, hi, second: y.keys >> id & 1 == 1 });
                    }
                }
            } else {
                cover(92);
                for k in 0..m {
                    let p = after.parent(k);
                    if p == i || p == j {
                        let b = &after.nodes[k].b;
                        parts.push(Part { lo: b.lo[0], hi: b.hi[0], second: p == j });
                    }
                }
            }
            cover(91);
            check_parts(&mut parts, min);
        }
    }
}
/// A tree of fixed keys, each of which is moved to the second of two places or not.
/// With `mask`, bit i says in which place key i is.
fn grouped(s: &Setup, mask: i64) -> (Tree<1, i64>, Model<1>) {
    let mut t: Tree<1, i64> = rusty_rtree::RTree::new(config(s.max, s.min));
    let mut keys: Vec<HQ<1>> = Vec::new();
    g().vol = Vol::Geo;
    for i in 0..s.n {
        let p = position(s.seed, i, s.n) * 2 + if (if mask != 0 { mask >> i & 1 } else { choice(2) as i64 }) == 0 { 0 } else { 400 };
        let w = if s.geo == 2 { i * 7 % 5 } else { 0 };
        let q = fix_q(i as u32, p, p + w);
        keys.push(q.copy());
        t.insert(HK::from_q(q), 100 + i);
    }
    let obs = read(&t);
    (t, Model { keys, obs })
}
/// params: prop max min n seed geo rm uniq groups
/// groups 1: the keys of arbitrary geometry fall into two groups, in any way
/// groups 2: fixed keys, each in either of two places, and a key of arbitrary geometry
/// groups 16*mask: the same, with the places given by the bits of mask
#[no_mangle]
pub extern "C" fn h_split() {
    start();
    let s = Setup { max: param(1) as usize, min: param(2) as usize, n: param(3), seed: param(4), geo: param(5), rm: param(6) };
    let (mut t, m) = if param(8) >= 2 { grouped(&s, param(8) >> 4) } else { build::<1, i64>(&s, 0) };
    g().vol = Vol::Geo;
    let before = snap(&t);
    let id = m.keys.len() as u32;
    let q = wide_q::<1>(&s, id);
    if param(8) >= 2 {
        assume((q.hi[0] <= 120) | (q.lo[0] >= 380));
    }
    if param(8) == 1 {
        // any way to distribute them on 0..15 and 32..47
        for i in 0..=id {
            let k = if i == id { &q } else { &m.keys[i as usize] };
            if choice(2) == 0 {
                assume(k.hi[0] <= 15);
            } else {
                assume((k.lo[0] >= 32) & (k.hi[0] <= 47));
            }
        }
    }
    let (lo, hi) = (q.lo[0], q.hi[0]);
    if param(7) != 0 {
        if t.insert_unique(HK::from_q(q), 100 + id as i64).is_some() {
            cover(9);
            return;
        }
    } else {
        t.insert(HK::from_q(q), 100 + id as i64);
    }
    let after = snap(&t);
    check_splits(&before, &after, id, s.min, &|x| if x == id { (lo, hi) } else { (m.keys[x as usize].lo[0], m.keys[x as usize].hi[0]) });
    cover(9);
}

/// C29: the nodes of a tree in the order of a search: where their entries begin and
/// how many there are, their depth and their bounds; and the entries' values.
struct Form<const D: usize> {
    nodes: Vec<(usize, u32, usize, HB<D>)>,
    order: Vec<u32>,
}
fn form<const D: usize, V: HV>(t: &Tree<D, V>) -> Form<D> {
    let s = snap(t);
    let mut nodes = Vec::new();
    for (i, n) in s.nodes.iter().enumerate() {
        let first = s.order.iter().position(|id| n.keys >> id & 1 == 1).unwrap_or(99);
        nodes.push((first, n.keys.count_ones(), s.depth(i), n.b.raw_copy()));
    }
    Form { nodes, order: s.order }
}
impl<const D: usize> Form<D> {
    fn same(&self, o: &Form<D>, msg: &str) {
        ck(c(29), self.order == o.order, msg);
        ck(c(29), self.nodes.len() == o.nodes.len(), msg);
        for (a, b) in self.nodes.iter().zip(&o.nodes) {
            ck(c(29), (a.0, a.1, a.2) == (b.0, b.1, b.2), msg);
            ck(c(29), a.3.same(&b.3), msg);
        }
    }
}
struct Half(u64);
impl<const D: usize> SpatialFilter<HB<D>, HQ<D>> for Half {
    fn test_bounds(&self, _: &HB<D>) -> bool {
        true
    }
    fn test_key(&self, k: &HQ<D>) -> bool {
        self.0 >> k.id & 1 == 1
    }
}
struct Low;
impl<const D: usize> Ranking<HB<D>, HK<D>> for Low {
    type Metric = i64;
    fn bounds_min(&self, b: &HB<D>) -> i64 {
        b.lo[0]
    }
    fn rank_key(&self, k: &HK<D>) -> i64 {
        k.q.lo[0]
    }
}
struct Meet;
impl<const D: usize> JoinFilter<HB<D>, HB<D>, HQ<D>, HQ<D>> for Meet {
    fn test_bounds(&self, _: &HB<D>, _: &HB<D>) -> bool {
        true
    }
    fn test_key(&self, a: &HQ<D>, b: &HQ<D>) -> bool {
        (a.id ^ b.id) < 2
    }
}
impl Clone for Meet {
    fn clone(&self) -> Self {
        Meet
    }
}
/// Every kind of search, some abandoned half-way.
fn searches<const D: usize, V: HV + Clone>(t: &mut Tree<D, V>, ranked: bool) {
    let mut n = 0;
    n += (&*t).into_iter().count();
    n += (&mut *t).into_iter().skip(1).count();
    n += t.filter_iter(Half(0x5555_5555_5555_5555)).count();
    n += t.filter_iter_mut(Half(0x6666_6666_6666_6666)).take(2).count();
    n += t.join(&*t, Meet).take(3).count();
    {
        let mut outer = t.left_join(&*t, Meet);
        let first = outer.next();
        outer.next();
        n += first.map_or(0, |(_, inner)| inner.count());
        n += outer.take(2).map(|(_, inner)| inner.count()).sum::<usize>();
    }
    if ranked {
        n += t.iter_asc_by(Low).take(3).count();
        n += t.iter_asc_by_mut(Low).take(2).count();
        n += t.min_by(Low).is_some() as usize + t.min_by_mut(Low).is_some() as usize;
    }
    n += t.clone().len();
    note(n as i64);
}
fn calm<const D: usize, V: HV + Clone>(s: &Setup, vol: i64, mut script: i64, opseed: i64) {
    let (mut t, mut m) = build::<D, V>(s, 0);
    let mut twin: Tree<D, V> = rebuild(s, &m);
    g().vol = match vol {
        0 => Vol::Build,
        1 => Vol::Any,
        _ => Vol::Geo,
    };
    let mut was = form(&t);
    was.same(&form(&twin), "the same calls build different trees");
    let s2 = Setup { max: s.max, min: s.min, n: s.n + 8, seed: opseed, geo: 0, rm: 0 };
    let mut i = s.n;
    while script > 0 {
        let op = script % 10;
        script /= 10;
        let id = m.keys.len() as u32;
        let q = new_key::<D>(&s2, i, id);
        i += 1;
        m.keys.push(q.copy());
        let v = || V::mk(100 + id as i64);
        let changed = match op {
            1 => {
                t.insert(HK::from_q(q.copy()), v());
                twin.insert(HK::from_q(q), v());
                true
            }
            2 => {
                let new = t.insert_unique(HK::from_q(q.copy()), v()).is_none();
                if new {
                    ck(c(29), twin.insert_unique(HK::from_q(q), v()).is_none(), "the same call has another result on an equal tree");
                }
                new
            }
            3 => {
                let gone = t.remove(&q).is_some();
                if gone {
                    ck(c(29), twin.remove(&q).is_some(), "the same call has another result on an equal tree");
                }
                gone
            }
            4 | 5 => {
                note(t.get(&q).is_some() as i64);
                false
            }
            6 | 7 => {
                if let Some(x) = t.get_mut(&q) {
                    x.set(777);
                }
                false
            }
            _ => {
                searches(&mut t, op == 9);
                false
            }
        };
        let now = form(&t);
        if changed {
            cover(95);
            now.same(&form(&twin), "equal trees differ after the same call");
        } else {
            cover(94);
            now.same(&was, "a call that adds and removes nothing changes the tree");
        }
        was = now;
    }
    cover(9);
}
/// params: prop max min n seed geo rm dims vol script opseed
#[no_mangle]
pub extern "C" fn h_calm() {
    start();
    let s = Setup { max: param(1) as usize, min: param(2) as usize, n: param(3), seed: param(4), geo: param(5), rm: param(6) };
    match param(7) {
        0 => calm::<1, i64>(&s, param(8), param(9), param(10)),
        _ => calm::<2, i64>(&s, param(8), param(9), param(10)),
    }
}
