//! C07-C10: filtered, mutable and ranked searches.  The filter or ranking is an
//! arbitrary function that honours its contract: its answers are symbolic.
use crate::hb::*;
use crate::hist::*;
use crate::snap::*;
use crate::sym::*;
use rusty_rtree::filter::SpatialFilter;
use rusty_rtree::ranking::Ranking;

pub const NG: usize = 64;
/// Answers of the arbitrary filter / ranking.
pub struct Q {
    /// per key: accepted, metric present, metric
    pub acc: [bool; NKEY],
    pub some: [bool; NKEY],
    pub m: [i64; NKEY],
    /// geometry of the keys that are stored, by id
    pub stored: u64,
    pub klo: [i64; NKEY],
    pub khi: [i64; NKEY],
    /// answers per bounds geometry
    pub ng: usize,
    pub glo: [i64; NG],
    pub ghi: [i64; NG],
    pub gacc: [u8; NG],
    pub gsome: [bool; NG],
    pub glb: [i64; NG],
    pub has: [u8; NG],
    /// what was evaluated
    pub keys: u64,
    pub nb: usize,
    pub bids: [u64; 256],
    /// evaluated before, and again
    pub again: u64,
    pub opt: bool,
    /// few: only a chosen key has arbitrary answers
    pub few: bool,
    pub budget: usize,
    pub top: i64,
}
pub static QS: Cell0<Q> = Cell0::new(Q {
    acc: [false; NKEY],
    some: [false; NKEY],
    m: [0; NKEY],
    stored: 0,
    klo: [0; NKEY],
    khi: [0; NKEY],
    ng: 0,
    glo: [0; NG],
    ghi: [0; NG],
    gacc: [0; NG],
    gsome: [false; NG],
    glb: [0; NG],
    has: [0; NG],
    keys: 0,
    nb: 0,
    bids: [0; 256],
    again: 0,
    opt: false,
    few: false,
    budget: 0,
    top: 0,
});
fn saw<const D: usize>(b: &HB<D>) {
    let q = QS.g();
    check(q.nb < 256, "more bounds are evaluated than such a tree can have");
    q.bids[q.nb] = b.bid;
    q.nb += 1;
}
fn reset() {
    let q = QS.g();
    q.keys = 0;
    q.nb = 0;
}
/// Index of the geometry (concrete) of b.
fn geo(lo: i64, hi: i64) -> usize {
    let q = QS.g();
    for i in 0..q.ng {
        if q.glo[i] == lo && q.ghi[i] == hi {
            return i;
        }
    }
    let i = q.ng;
    check(i < NG, "harness: too many bounds");
    q.glo[i] = lo;
    q.ghi[i] = hi;
    q.ng += 1;
    i
}
fn inside(g: usize, id: usize) -> bool {
    let q = QS.g();
    q.stored >> id & 1 == 1 && q.glo[g] <= q.klo[id] && q.khi[id] <= q.ghi[g]
}
/// Accept or reject a box: accept whenever a key inside is accepted, else anything.
fn accept(g: usize) -> bool {
    let q = QS.g();
    if q.gacc[g] == 0 {
        let mut r = beyond(g, 0);
        for id in 0..NKEY {
            if inside(g, id) {
                r = r | q.acc[id];
            }
        }
        q.gacc[g] = if r { 1 } else { 2 };
    }
    q.gacc[g] == 1
}
/// Whether a box is accepted even if no key inside is.
fn beyond(g: usize, opt: u8) -> bool {
    let q = QS.g();
    if !q.few {
        return boolean();
    }
    for id in 0..NKEY {
        if inside(g, id) && if opt == 1 { q.some[id] } else { q.acc[id] } {
            return false;
        }
    }
    if q.budget > 0 && boolean() {
        q.budget -= 1;
        return true;
    }
    false
}
/// Lower bound of a box.
fn low(g: usize) -> i64 {
    let q = QS.g();
    if q.has[g] & 1 == 0 {
        q.has[g] |= 1;
        if q.few {
            // the least metric inside, but at most `top`
            let mut v = q.top;
            for id in 0..NKEY {
                if inside(g, id) && (!q.opt || q.some[id]) {
                    v = ite(q.m[id] < v, q.m[id], v);
                }
            }
            q.glb[g] = v;
            return v;
        }
        let v = int(0, RM);
        q.glb[g] = v;
        for id in 0..NKEY {
            if inside(g, id) {
                assume((!q.some[id] & q.opt) | (v <= q.m[id]));
            }
        }
        for h in 0..q.ng {
            if h != g && q.has[h] & 1 == 1 {
                if q.glo[h] <= q.glo[g] && q.ghi[g] <= q.ghi[h] {
                    assume(q.glb[h] <= v);
                } else if q.glo[g] <= q.glo[h] && q.ghi[h] <= q.ghi[g] {
                    assume(v <= q.glb[h]);
                }
            }
        }
    }
    q.glb[g]
}
/// Whether the box's bound is Some; it must be if a key inside is Some, and a
/// box that contains a Some box is Some.
fn low_some(g: usize) -> bool {
    let q = QS.g();
    if q.has[g] & 2 == 0 {
        q.has[g] |= 2;
        let mut r = beyond(g, 1);
        for id in 0..NKEY {
            if inside(g, id) {
                r = r | q.some[id];
            }
        }
        for h in 0..q.ng {
            if h != g && q.has[h] & 2 == 2 {
                if q.glo[h] <= q.glo[g] && q.ghi[g] <= q.ghi[h] {
                    assume(q.gsome[h] | !r);
                } else if q.glo[g] <= q.glo[h] && q.ghi[h] <= q.ghi[g] {
                    assume(r | !q.gsome[h]);
                }
            }
        }
        q.gsome[g] = r;
    }
    q.gsome[g]
}
pub const RM: i64 = 15;

pub struct AnyFilter;
impl<const D: usize> SpatialFilter<HB<D>, HQ<D>> for AnyFilter {
    fn test_bounds(&self, b: &HB<D>) -> bool {
        tick();
        saw(b);
        accept(geo(b.lo[0], b.hi[0]))
    }
    fn test_key(&self, k: &HQ<D>) -> bool {
        tick();
        let q = QS.g();
        q.again |= q.keys & 1 << k.id;
        q.keys |= 1 << k.id;
        q.acc[k.id as usize]
    }
}
pub struct AnyRank;
impl<const D: usize> Ranking<HB<D>, HK<D>> for AnyRank {
    type Metric = i64;
    fn bounds_min(&self, b: &HB<D>) -> i64 {
        tick();
        saw(b);
        low(geo(b.lo[0], b.hi[0]))
    }
    fn rank_key(&self, k: &HK<D>) -> i64 {
        tick();
        let q = QS.g();
        q.again |= q.keys & 1 << k.q.id;
        q.keys |= 1 << k.q.id;
        q.m[k.q.id as usize]
    }
}
/// All metrics alike.
pub struct Flat;
impl<const D: usize> Ranking<HB<D>, HK<D>> for Flat {
    type Metric = i64;
    fn bounds_min(&self, b: &HB<D>) -> i64 {
        saw(b);
        0
    }
    fn rank_key(&self, _: &HK<D>) -> i64 {
        0
    }
}
pub struct OptRank;
impl<const D: usize> Ranking<HB<D>, HK<D>> for OptRank {
    type Metric = Option<i64>;
    fn bounds_min(&self, b: &HB<D>) -> Option<i64> {
        tick();
        saw(b);
        let g = geo(b.lo[0], b.hi[0]);
        if low_some(g) {
            Some(low(g))
        } else {
            None
        }
    }
    fn rank_key(&self, k: &HK<D>) -> Option<i64> {
        tick();
        let q = QS.g();
        q.again |= q.keys & 1 << k.q.id;
        q.keys |= 1 << k.q.id;
        if q.some[k.q.id as usize] {
            Some(q.m[k.q.id as usize])
        } else {
            None
        }
    }
}

/// Records the stored keys and gives each an arbitrary answer.
pub fn answers<const D: usize, V: HV>(m: &Model<D>, t: &Tree<D, V>, opt: bool, ranks: bool, few: i64) {
    let q = QS.g();
    q.opt = opt;
    if few > 0 && !t.is_empty() {
        // fixed answers for all keys but a chosen one
        q.few = true;
        q.budget = 1;
        q.top = if ranks { [0, 8, RM][choice(3)] } else { 0 };
        let all: Vec<u32> = t.iter().map(|e| e.0.q.id).collect();
        let x = all[choice(all.len())] as usize;
        for (i, id) in all.iter().enumerate() {
            let id = *id as usize;
            q.stored |= 1 << id;
            q.klo[id] = m.keys[id].lo[0];
            q.khi[id] = m.keys[id].hi[0];
            let yes = i as i64 % few == 1 % few;
            q.acc[id] = if id == x { boolean() } else { yes };
            q.m[id] = if id == x && ranks { int(0, RM) } else { (id as i64 * 7 + id as i64 / 5) % (RM + 1) };
            q.some[id] = if id == x && opt { boolean() } else { yes };
        }
        return;
    }
    for (k, _) in t.iter() {
        let id = k.q.id as usize;
        q.stored |= 1 << id;
        q.klo[id] = m.keys[id].lo[0];
        q.khi[id] = m.keys[id].hi[0];
        q.acc[id] = boolean();
        if ranks {
            q.m[id] = int(0, RM);
        }
        if opt {
            q.some[id] = boolean();
        }
    }
}

/// Bounds objects that occur once in the snapshot can be told apart.
fn unique<const D: usize>(s: &Snap<D>, i: usize) -> bool {
    for j in 0..s.nodes.len() {
        if j != i && s.nodes[j].bid == s.nodes[i].bid {
            return false;
        }
    }
    true
}
fn bid_seen(bid: u64) -> bool {
    let q = QS.g();
    for i in 0..q.nb {
        if q.bids[i] == bid {
            return true;
        }
    }
    false
}
/// Only nodes that were asked about and accepted were opened, and no more is
/// asked per node than it can have children.
fn check_asked<const D: usize>(s: &Snap<D>, max: usize) {
    let q = QS.g();
    for i in 0..s.nodes.len() {
        let n = &s.nodes[i];
        let mut opened = q.keys & n.keys != 0;
        let mut own = n.keys;
        let mut kids = 0;
        for j in 0..s.nodes.len() {
            if n.below >> j & 1 == 1 {
                opened = opened || (unique(s, j) && bid_seen(s.nodes[j].bid));
                own &= !s.nodes[j].keys;
                if s.parent(j) == i {
                    kids += 1;
                }
            }
        }
        if opened {
            cover(29);
            ck(c(7), q.gacc[geo(n.b.lo[0], n.b.hi[0])] == 1, "a node is opened whose bounds were not asked about, or rejected");
        }
        ck(c(7), kids + own.count_ones() as usize <= max, "a search opens nodes without asking about their bounds");
    }
    let mut tops = 0;
    for i in 0..s.nodes.len() {
        if s.depth(i) == 0 {
            tops += 1;
        }
    }
    ck(c(7), tops <= max && (tops > 0 || s.order.len() <= max), "a search opens nodes without asking about their bounds");
}
/// Nothing below a rejected node was tested.
fn check_pruned<const D: usize>(s: &Snap<D>) {
    let q = QS.g();
    for n in &s.nodes {
        let g = geo(n.b.lo[0], n.b.hi[0]);
        if q.gacc[g] != 2 {
            continue;
        }
        cover(20);
        ck(c(7), q.keys & n.keys == 0, "a key below a rejected node is tested");
        for j in 0..s.nodes.len() {
            if n.below >> j & 1 == 1 && unique(s, j) {
                ck(c(7), !bid_seen(s.nodes[j].bid), "a node below a rejected node is tested");
            }
        }
    }
}
fn check_opened<const D: usize>(s: &Snap<D>, props: u32, metric: i64) {
    let q = QS.g();
    for i in 0..s.nodes.len() {
        let n = &s.nodes[i];
        let mut opened = q.keys & n.keys != 0;
        for j in 0..s.nodes.len() {
            if n.below >> j & 1 == 1 && unique(s, j) && bid_seen(s.nodes[j].bid) {
                opened = true;
            }
        }
        // an only node's keys are below its parents too; the bounds are monotone
        if opened {
            let g = geo(n.b.lo[0], n.b.hi[0]);
            if q.opt && !low_some(g) {
                ck(props, false, "a node whose bound is None is opened");
            }
            cover(21);
            ck(props, low(g) <= metric, "a node is opened although an entry of smaller metric was still to be yielded");
        }
    }
}

fn filtered<V: HV>(t: &mut Tree<1, V>, max: usize) {
    let s = snap(t);
    let q = QS.g();
    reset();
    let mut it = t.filter_iter(AnyFilter);
    let mut got: Vec<(u32, i64)> = Vec::new();
    while let Some((k, v)) = it.next() {
        got.push((k.q.id, v.get()));
        check(got.len() <= s.order.len(), "more entries than there are");
    }
    ck(c(7), it.next().is_none(), "an iterator yields again after its end");
    ck(c(7), it.next().is_none(), "an iterator yields again after its end");
    drop(it);
    check_pruned(&s);
    check_asked(&s, max);
    // the mutable search is told the same and prunes alike
    reset();
    let mut n = 0;
    for (k, _) in t.filter_iter_mut(AnyFilter) {
        ck(c(7), n < got.len() && got[n].0 == k.q.id, "filter_iter_mut yields other entries than filter_iter");
        n += 1;
    }
    ck(c(7), n == got.len(), "filter_iter_mut yields other entries than filter_iter");
    check_pruned(&s);
    check_asked(&s, max);
    // exactly the accepted ones, in iteration order
    let all = read(t);
    ck(c(7), all.len() == s.order.len(), "iter() and filter_iter() disagree");
    let mut p = 0;
    for e in &all {
        let y = p < got.len() && got[p] == *e;
        if y {
            p += 1;
            ck(c(7), q.acc[e.0 as usize], "an entry is yielded whose key the filter rejects");
            cover(22);
        } else {
            ck(c(7), !q.acc[e.0 as usize], "an accepted entry is not yielded, or out of order");
            cover(23);
        }
    }
    ck(c(7), p == got.len(), "an entry is yielded twice or is not stored");
}

fn ids(a: &[(u32, i64)]) -> Vec<u32> {
    a.iter().map(|x| x.0).collect()
}
/// Writes through all references at once and looks at them again.
fn write_all<V: HV>(refs: Vec<(u32, &mut V)>, before: &[(u32, i64)]) -> Vec<(u32, i64)> {
    let mut refs = refs;
    let mut want: Vec<(u32, i64)> = before.to_vec();
    let mut vals = Vec::new();
    for (j, r) in refs.iter_mut().enumerate() {
        let old = r.1.get();
        // some are written, some are not
        let w = boolean();
        let new = ite(w, 1000 + j as i64, old);
        r.1.set(new);
        vals.push(new);
        let mut hit = false;
        for e in want.iter_mut() {
            if e.0 == r.0 && !hit {
                ck(c(8), old == e.1, "the reference yielded for a key is not to its value");
                e.1 = new;
                hit = true;
            }
        }
        ck(c(8), hit, "an entry is yielded that is not stored");
    }
    for (j, r) in refs.iter().enumerate() {
        ck(c(8), r.1.get() == vals[j], "two yielded references are to the same value");
    }
    want
}
fn verify<V: HV>(t: &Tree<1, V>, want: &[(u32, i64)]) {
    let now = read(t);
    ck(c(8), now.len() == want.len(), "writing through references changed the number of entries");
    let mut same = true;
    for (a, b) in now.iter().zip(want) {
        ck(c(8), a.0 == b.0, "writing through references changed the order");
        same = same & (a.1 == b.1);
    }
    ck(c(8), same, "a write is not visible on exactly the entry it was made through");
}
fn same_set(a: &[u32], b: &[u32]) -> bool {
    let (mut x, mut y) = (0u64, 0u64);
    for i in a {
        x |= 1 << i;
    }
    for i in b {
        y |= 1 << i;
    }
    a.len() == b.len() && x == y
}
fn rank_order(a: &[u32], opt: bool) {
    let q = QS.g();
    for w in 0..a.len() {
        if opt {
            ck(c(8) | c(10), q.some[a[w] as usize], "an entry without a metric is yielded");
        }
        if w > 0 {
            ck(c(8) | c(9) | c(10), q.m[a[w - 1] as usize] <= q.m[a[w] as usize], "entries are not yielded in ascending order of rank");
        }
    }
}

/// kind: 0 iter_mut, 1 filter_iter_mut, 2 iter_asc_by_mut,
/// 3 filter_iter_asc_by_mut, 4 min_by_mut, 5 filter_min_by_mut
fn mutable<V: HV>(t: &mut Tree<1, V>, kind: i64) {
    let before = read(t);
    let shared: Vec<u32> = match kind {
        0 => t.iter().map(|e| e.0.q.id).collect(),
        1 => t.filter_iter(AnyFilter).map(|e| e.0.q.id).collect(),
        2 => t.iter_asc_by(AnyRank).map(|e| e.0.q.id).collect(),
        3 => t.filter_iter_asc_by(OptRank).map(|e| e.0.q.id).collect(),
        4 => t.min_by(AnyRank).map(|e| e.0.q.id).into_iter().collect(),
        _ => t.filter_min_by(OptRank).map(|e| e.0.q.id).into_iter().collect(),
    };
    let mut refs: Vec<(u32, &mut V)> = Vec::new();
    let most = before.len();
    macro_rules! take {
        ($it:expr) => {{
            let mut it = $it;
            while let Some((k, v)) = it.next() {
                refs.push((k.q.id, v));
                check(refs.len() <= most, "more entries than there are");
            }
            ck(c(8), it.next().is_none(), "an iterator yields again after its end");
        }};
    }
    match kind {
        0 => take!(t.iter_mut()),
        1 => take!(t.filter_iter_mut(AnyFilter)),
        2 => take!(t.iter_asc_by_mut(AnyRank)),
        3 => take!(t.filter_iter_asc_by_mut(OptRank)),
        4 => take!(t.min_by_mut(AnyRank).into_iter()),
        _ => take!(t.filter_min_by_mut(OptRank).into_iter()),
    }
    let order: Vec<u32> = refs.iter().map(|r| r.0).collect();
    if kind < 2 {
        ck(c(8), order == shared, "the mutable iterator yields other entries than the shared one, or in another order");
    } else if kind < 4 {
        ck(c(8), same_set(&order, &shared), "the mutable iterator yields other entries than the shared one");
        rank_order(&order, kind == 3);
    } else {
        ck(c(8), order.len() == shared.len(), "the mutable minimum exists exactly when the shared one does");
        if order.len() == 1 && shared.len() == 1 {
            let q = QS.g();
            ck(c(8), q.m[order[0] as usize] == q.m[shared[0] as usize], "the mutable minimum has another rank than the shared one");
        }
    }
    if !order.is_empty() {
        cover(24);
    }
    let want = write_all(refs, &before);
    verify(t, &want);
}

/// opt: 0 plain metric, 1 optional metric; min: only the minimum
fn ranked<V: HV>(t: &mut Tree<1, V>, opt: bool, min: bool) {
    let s = snap(t);
    let q = QS.g();
    let before = ids(&read(t));
    reset();
    let prop = if opt { c(10) } else { c(9) };
    let mut got: Vec<u32> = Vec::new();
    if min {
        let r = if opt { t.filter_min_by(OptRank) } else { t.min_by(AnyRank) };
        match r {
            None => {
                cover(25);
                if !opt {
                    ck(prop, before.is_empty(), "min_by is None although there are entries");
                }
                for id in &before {
                    ck(prop, !q.some[*id as usize], "filter_min_by is None although an entry has a metric");
                }
            }
            Some((k, v)) => {
                cover(26);
                let id = k.q.id;
                ck(prop, v.get() == 100 + id as i64, "an entry is yielded with another value");
                ck(prop, !opt | q.some[id as usize], "an entry without a metric is yielded");
                for o in &before {
                    ck(prop, (opt & !q.some[*o as usize]) | (q.m[id as usize] <= q.m[*o as usize]), "the minimum is not minimal");
                }
                check_opened(&s, prop, q.m[id as usize]);
            }
        }
        return;
    }
    macro_rules! drain {
        ($it:expr) => {{
            let mut it = $it;
            while let Some((k, v)) = it.next() {
                let id = k.q.id;
                ck(prop, v.get() == 100 + id as i64, "an entry is yielded with another value");
                if is(c(9)) {
                    check_opened(&s, prop, q.m[id as usize]);
                }
                reset();
                got.push(id);
                check(got.len() <= before.len(), "more entries than there are");
            }
            ck(prop, it.next().is_none(), "an iterator yields again after its end");
        }};
    }
    if opt {
        drain!(t.filter_iter_asc_by(OptRank));
    } else {
        drain!(t.iter_asc_by(AnyRank));
    }
    rank_order(&got, opt);
    // the mutable search opens nodes no earlier
    reset();
    let most = before.len();
    let mut last = 0;
    let mut n = 0;
    macro_rules! drain_mut {
        ($it:expr) => {{
            for (k, _) in $it {
                let id = k.q.id as usize;
                if is(c(9)) {
                    check_opened(&s, prop, q.m[id]);
                }
                reset();
                ck(prop, n == 0 || last <= q.m[id], "entries are not yielded in ascending order of rank");
                last = q.m[id];
                n += 1;
                check(n <= most, "more entries than there are");
            }
        }};
    }
    if opt {
        drain_mut!(t.filter_iter_asc_by_mut(OptRank));
    } else {
        drain_mut!(t.iter_asc_by_mut(AnyRank));
    }
    ck(prop, n == got.len(), "the mutable search yields another number of entries");
    let mut seen = 0u64;
    for id in &got {
        ck(prop, seen >> id & 1 == 0, "an entry is yielded twice");
        seen |= 1 << id;
        cover(27);
    }
    for id in &before {
        if seen >> id & 1 == 0 {
            cover(28);
            ck(prop, opt & !q.some[*id as usize], "an entry with a metric is not yielded");
        }
    }
    ck(prop, seen & !q.stored == 0, "an entry is yielded that is not stored");
}

fn run<V: HV>(s: &Setup, mode: i64) {
    {
        let (mut t, m) = build::<1, V>(s, 0);
        match mode {
            0 => {
                answers(&m, &t, false, false, param(9));
                filtered(&mut t, s.max)
            }
            10..=15 => {
                let k = mode - 10;
                answers(&m, &t, k == 3 || k == 5, k >= 2, param(9));
                mutable(&mut t, k)
            }
            _ => {
                let opt = mode % 2 == 1;
                answers(&m, &t, opt, true, param(9));
                ranked(&mut t, opt, mode / 2 == 11)
            }
        }
        cover(9);
    }
}

/// params: prop max min n seed geo rm mode variant few
/// few: 0 all answers arbitrary; k: one chosen key's, every k-th other key is accepted
/// mode: 0 filter, 1x mutable kind x, 20 ranked, 21 optional, 22 min, 23 optional min
#[no_mangle]
pub extern "C" fn h_query() {
    start();
    let s = Setup { max: param(1) as usize, min: param(2) as usize, n: param(3), seed: param(4), geo: param(5), rm: param(6) };
    match param(8) {
        0 => run::<i64>(&s, param(7)),
        _ => run::<TV>(&s, param(7)),
    }
}

/// Neither a node's bounds nor a key was evaluated more than once.
fn check_once<const D: usize>(s: &Snap<D>) {
    let q = QS.g();
    ck(c(27), q.again == 0, "a key is evaluated twice in one search");
    for i in 0..q.nb {
        let mut evals = 0;
        for j in 0..q.nb {
            if q.bids[j] == q.bids[i] {
                evals += 1;
            }
        }
        let mut nodes = 0;
        for n in &s.nodes {
            if n.bid == q.bids[i] {
                nodes += 1;
            }
        }
        ck(c(27), evals <= nodes, "the bounds of a node are evaluated twice in one search");
    }
}
/// Nothing stored after the entry just yielded was evaluated.
fn check_lazy<const D: usize>(s: &Snap<D>, id: u32) {
    let q = QS.g();
    let mut after = 0u64;
    let mut on = false;
    for o in &s.order {
        if on {
            after |= 1 << *o;
        }
        on = on || *o == id;
    }
    ck(c(27), q.keys & after == 0, "a key is tested before the entries stored ahead of it were yielded");
    for j in 0..s.nodes.len() {
        if s.nodes[j].keys & !after == 0 && unique(s, j) {
            cover(88);
            ck(c(27), !bid_seen(s.nodes[j].bid), "bounds are tested before the entries stored ahead of them were yielded");
        }
    }
}

/// kind: 0 filter_iter, 1 filter_iter_mut, 2 iter_asc_by, 3 iter_asc_by_mut,
/// 4 filter_iter_asc_by, 5 filter_iter_asc_by_mut, 6 min_by, 7 min_by_mut,
/// 8 filter_min_by, 9 filter_min_by_mut
fn once<V: HV>(t: &mut Tree<1, V>, kind: i64) {
    let s = snap(t);
    let most = s.order.len();
    // no search is shown a node twice: two independent ones agree on how often
    // each bounds object is there
    reset();
    let mut n = 0;
    for _ in t.iter_asc_by(Flat) {
        n += 1;
        check(n <= most, "more entries than there are");
    }
    let q = QS.g();
    for x in &s.nodes {
        let (mut here, mut there) = (0, 0);
        for y in &s.nodes {
            if y.bid == x.bid {
                here += 1;
            }
        }
        for i in 0..q.nb {
            if q.bids[i] == x.bid {
                there += 1;
            }
        }
        ck(c(27), here <= there, "the bounds of a node are evaluated twice in one search");
    }
    reset();
    let q = QS.g();
    q.again = 0;
    let mut n = 0;
    macro_rules! drain {
        ($lazy:expr, $it:expr) => {{
            let mut it = $it;
            let lazy: bool = $lazy;
            while let Some((k, _)) = it.next() {
                n += 1;
                check(n <= most, "more entries than there are");
                if lazy {
                    check_lazy(&s, k.q.id);
                }
            }
        }};
    }
    match kind {
        0 => drain!(true, t.filter_iter(AnyFilter)),
        1 => drain!(true, t.filter_iter_mut(AnyFilter)),
        2 => drain!(false, t.iter_asc_by(AnyRank)),
        3 => drain!(false, t.iter_asc_by_mut(AnyRank)),
        4 => drain!(false, t.filter_iter_asc_by(OptRank)),
        5 => drain!(false, t.filter_iter_asc_by_mut(OptRank)),
        6 => drain!(false, t.min_by(AnyRank).into_iter()),
        7 => drain!(false, t.min_by_mut(AnyRank).into_iter()),
        8 => drain!(false, t.filter_min_by(OptRank).into_iter()),
        _ => drain!(false, t.filter_min_by_mut(OptRank).into_iter()),
    }
    check_once(&s);
    if n > 0 {
        cover(87);
    }
}

/// params: prop max min n seed geo rm kind few
#[no_mangle]
pub extern "C" fn h_once() {
    start();
    let s = Setup { max: param(1) as usize, min: param(2) as usize, n: param(3), seed: param(4), geo: param(5), rm: param(6) };
    let kind = param(7);
    let (mut t, m) = build::<1, i64>(&s, 0);
    answers(&m, &t, matches!(kind, 4 | 5 | 8 | 9), kind >= 2, param(8));
    once(&mut t, kind);
    cover(9);
}
