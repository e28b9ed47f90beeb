//! C11-C13: joins of two trees under an arbitrary contract-honouring filter.
use crate::hb::*;
use crate::hist::*;
use crate::snap::*;
use crate::sym::*;
use rusty_rtree::filter::{JoinFilter, JoiningFilter};

const BASE: usize = 24;
const NL: usize = 24;
const NP: usize = 1024;
pub struct JS {
    pub m: [[bool; NL]; NL],
    pub l: u64,
    pub r: u64,
    pub llo: [i64; NL],
    pub lhi: [i64; NL],
    pub rlo: [i64; NL],
    pub rhi: [i64; NL],
    /// answers per pair of bounds geometries
    pub np: usize,
    pub pg: [[i64; 4]; NP],
    pub pacc: [bool; NP],
    /// every `extra`-th pair of bounds may be accepted without need
    pub extra: i64,
    /// right keys tested per left key
    pub tested: [u64; NL],
    /// a pair of keys was tested twice
    pub twice: bool,
    /// how many more pairs of bounds may be accepted without need
    pub budget: usize,
}
pub static S: Cell0<JS> = Cell0::new(JS {
    m: [[false; NL]; NL],
    l: 0,
    r: 0,
    llo: [0; NL],
    lhi: [0; NL],
    rlo: [0; NL],
    rhi: [0; NL],
    np: 0,
    pg: [[0; 4]; NP],
    pacc: [false; NP],
    extra: 1,
    tested: [0; NL],
    twice: false,
    budget: 1,
});

#[derive(Clone, Copy)]
pub struct AnyJoin;
fn pair(a: i64, b: i64, c: i64, d: i64) -> bool {
    let s = S.g();
    for i in 0..s.np {
        if s.pg[i] == [a, b, c, d] {
            return s.pacc[i];
        }
    }
    let i = s.np;
    check(i < NP, "harness: too many pairs of bounds");
    let mut r = match s.extra {
        0 => true,
        1 | 100 => false,
        e => {
            if i as i64 % (e - 1) == 0 {
                boolean()
            } else {
                false
            }
        }
    };
    for x in 0..NL {
        if s.l >> x & 1 == 1 && a <= s.llo[x] && s.lhi[x] <= b {
            for y in 0..NL {
                if s.r >> y & 1 == 1 && c <= s.rlo[y] && s.rhi[y] <= d {
                    r = r | s.m[x][y];
                }
            }
        }
    }
    let mut r = if r { true } else { false };
    if s.extra == 100 && !r && s.budget > 0 && boolean() {
        s.budget -= 1;
        r = true;
    }
    s.pg[i] = [a, b, c, d];
    s.pacc[i] = r;
    s.np = i + 1;
    r
}
impl<const D: usize, const E: usize> JoinFilter<HB<D>, HB<E>, HQ<D>, HQ<E>> for AnyJoin {
    fn test_bounds(&self, l: &HB<D>, r: &HB<E>) -> bool {
        tick();
        pair(l.lo[0], l.hi[0], r.lo[0], r.hi[0])
    }
    fn test_key(&self, l: &HQ<D>, r: &HQ<E>) -> bool {
        tick();
        let s = S.g();
        let (x, y) = (l.id as usize, r.id as usize - BASE);
        s.twice |= s.tested[x] >> y & 1 == 1;
        s.tested[x] |= 1 << y;
        s.m[x][y]
    }
}

/// Which pairs may match: 0 any subset; k > 1: every k-th pair arbitrary, the
/// others fixed; -k: fixed pattern; 1000 + k: one chosen pair arbitrary, about
/// every k-th other pair matches.
fn setup<const D: usize, const E: usize, V: HV, W: HV>(l: &Tree<D, V>, lm: &Model<D>, r: &Tree<E, W>, rm: &Model<E>, pat: i64, extra: i64) {
    let s = S.g();
    s.extra = extra;
    for (k, _) in l.iter() {
        let x = k.q.id as usize;
        s.l |= 1 << x;
        s.llo[x] = lm.keys[x].lo[0];
        s.lhi[x] = lm.keys[x].hi[0];
    }
    for (k, _) in r.iter() {
        let y = k.q.id as usize - BASE;
        s.r |= 1 << y;
        s.rlo[y] = rm.keys[y + BASE].lo[0];
        s.rhi[y] = rm.keys[y + BASE].hi[0];
    }
    let mut n = 0;
    // only the i-th pair is arbitrary
    let one = if pat >= 1000 { choice(l.len() * r.len()) as i64 } else { -1 };
    for x in 0..NL {
        for y in 0..NL {
            if s.l >> x & 1 == 1 && s.r >> y & 1 == 1 {
                let h = (x * 7 + y * 5 + x * y * 3 + 1) as i64;
                s.m[x][y] = if pat == 0 {
                    boolean()
                } else if pat >= 1000 {
                    if n == one {
                        boolean()
                    } else {
                        h % (pat - 1000) == 0
                    }
                } else if pat > 0 {
                    if n % pat == 0 {
                        boolean()
                    } else {
                        h % 4 == 0
                    }
                } else {
                    h % -pat != 0
                };
                n += 1;
            }
        }
    }
}

fn geo_unique<const D: usize>(s: &Snap<D>, lo: i64, hi: i64) -> usize {
    let mut r = usize::MAX;
    for i in 0..s.nodes.len() {
        if s.nodes[i].b.lo[0] == lo && s.nodes[i].b.hi[0] == hi {
            if r != usize::MAX {
                return usize::MAX;
            }
            r = i;
        }
    }
    r
}
fn within<const D: usize>(s: &Snap<D>, anc: usize, i: usize) -> bool {
    anc == i || s.nodes[anc].below >> i & 1 == 1
}

fn join<const D: usize, const E: usize, V: HV, W: HV>(l: &Tree<D, V>, r: &Tree<E, W>) {
    let s = S.g();
    let (sl, sr) = (snap(l), snap(r));
    let mut count = [[0u8; NL]; NL];
    let most = sl.order.len() * sr.order.len();
    let mut n = 0;
    {
        let mut it = l.join(r, AnyJoin);
        while let Some((a, b)) = it.next() {
            let (x, y) = (a.0.q.id as usize, b.0.q.id as usize - BASE);
            ck(c(11), a.1.get() == 100 + x as i64 && b.1.get() == 100 + b.0.q.id as i64, "a pair is yielded with another value");
            count[x][y] += 1;
            n += 1;
            check(n <= most, "more pairs than there are");
        }
        ck(c(11), it.next().is_none(), "an iterator yields again after its end");
        ck(c(11), it.next().is_none(), "an iterator yields again after its end");
    }
    for x in 0..NL {
        for y in 0..NL {
            let there = s.l >> x & 1 == 1 && s.r >> y & 1 == 1;
            ck(c(11), count[x][y] <= 1, "a pair is yielded twice");
            if count[x][y] == 1 {
                cover(30);
                ck(c(11), there && s.m[x][y], "a pair is yielded that does not match");
            } else if there {
                cover(31);
                ck(c(11), !s.m[x][y], "a matching pair is not yielded");
            }
        }
    }
    pruned(&sl, &sr, c(11) | c(26));
}

/// Nothing below a rejected pair of bounds was tested.
fn pruned<const D: usize, const E: usize>(sl: &Snap<D>, sr: &Snap<E>, props: u32) {
    let s = S.g();
    let mut ix: Vec<(usize, usize)> = Vec::new();
    for i in 0..s.np {
        let [a, b, cc, d] = s.pg[i];
        ix.push((geo_unique(sl, a, b), geo_unique(sr, cc, d)));
    }
    for i in 0..s.np {
        let (nl, nr) = ix[i];
        if s.pacc[i] || nl == usize::MAX || nr == usize::MAX {
            continue;
        }
        cover(32);
        for x in 0..NL {
            if sl.nodes[nl].keys >> x & 1 == 1 {
                ck(props, s.tested[x] & (sr.nodes[nr].keys >> BASE) == 0, "a pair of keys below a rejected pair of bounds is tested");
            }
        }
        for j in 0..s.np {
            let (ml, mr) = ix[j];
            if j != i && ml != usize::MAX && mr != usize::MAX && within(sl, nl, ml) && within(sr, nr, mr) {
                ck(props, false, "a pair of bounds below a rejected pair of bounds is tested");
            }
        }
    }
}

/// The node that holds a key: the last of the smallest ones above it.
fn leaf_of<const D: usize>(s: &Snap<D>, bit: usize) -> usize {
    let mut r = usize::MAX;
    for i in 0..s.nodes.len() {
        let k = s.nodes[i].keys;
        if k >> bit & 1 == 1 && (r == usize::MAX || k.count_ones() <= s.nodes[r].keys.count_ones()) {
            r = i;
        }
    }
    r
}

/// Every pair of keys that was tested lies below an accepted pair of bounds:
/// those of the right key's leaf with those of the left key's leaf, or (in
/// left_join) with any others that hold the left key.
fn asked<const D: usize, const E: usize>(sl: &Snap<D>, sr: &Snap<E>, both: bool) {
    let s = S.g();
    let mut ok = [0u64; NL];
    let mut rb = [(0i64, 0i64); NL];
    for y in 0..NL {
        if s.r >> y & 1 == 1 {
            let n = leaf_of(sr, y + BASE);
            if n != usize::MAX {
                rb[y] = (sr.nodes[n].b.lo[0], sr.nodes[n].b.hi[0]);
            }
        }
    }
    for x in 0..NL {
        if s.l >> x & 1 == 0 {
            continue;
        }
        let n = leaf_of(sl, x);
        for i in 0..s.np {
            if !s.pacc[i] {
                continue;
            }
            let [a, b, cc, d] = s.pg[i];
            let left = a <= s.llo[x] && s.lhi[x] <= b && (!both || n == usize::MAX || (sl.nodes[n].b.lo[0] <= a && b <= sl.nodes[n].b.hi[0]));
            if left {
                for y in 0..NL {
                    if s.r >> y & 1 == 1 && cc <= s.rlo[y] && s.rhi[y] <= d && rb[y].0 <= cc && d <= rb[y].1 {
                        ok[x] |= 1 << y;
                    }
                }
            }
        }
    }
    for x in 0..NL {
        ck(c(26), s.tested[x] & !ok[x] == 0, "a pair of keys is tested whose leaves' bounds were not accepted");
    }
    ck(c(26), !s.twice, "a pair of keys is tested twice");
}

fn left<const D: usize, const E: usize, V: HV, W: HV>(l: &Tree<D, V>, r: &Tree<E, W>) {
    let s = S.g();
    let (nl, nr) = (l.len(), r.len());
    let mut seen = 0u64;
    let mut n = 0;
    let mut it = l.left_join(r, AnyJoin);
    while let Some(((k, v), inner)) = it.next() {
        let x = k.q.id as usize;
        ck(c(12), v.get() == 100 + x as i64, "a left entry is yielded with another value");
        ck(c(12), seen >> x & 1 == 0, "a left entry is yielded twice");
        seen |= 1 << x;
        n += 1;
        check(n <= nl, "more left entries than there are");
        let mut got = 0u64;
        let mut m = 0;
        let mut inner = inner;
        while let Some((k2, v2)) = inner.next() {
            let y = k2.q.id as usize - BASE;
            ck(c(12), v2.get() == 100 + k2.q.id as i64, "a right entry is yielded with another value");
            ck(c(12), got >> y & 1 == 0, "a right entry is yielded twice for a left entry");
            got |= 1 << y;
            m += 1;
            check(m <= nr, "more right entries than there are");
            cover(33);
        }
        ck(c(12), inner.next().is_none(), "an iterator yields again after its end");
        for y in 0..NL {
            if s.r >> y & 1 == 1 {
                if got >> y & 1 == 1 {
                    ck(c(12), s.m[x][y], "a right entry is yielded that does not match");
                } else {
                    cover(34);
                    ck(c(12), !s.m[x][y], "a matching right entry is not yielded");
                }
            }
        }
        if got == 0 {
            cover(35);
        }
    }
    ck(c(12), it.next().is_none(), "an iterator yields again after its end");
    ck(c(12), seen == s.l, "a left entry is not yielded");
}

struct Inner<I> {
    it: I,
    x: usize,
    got: u64,
    done: bool,
}
/// One step of an inner iterator.
fn step<'r, const E: usize, W: HV, I: Iterator<Item = (&'r HK<E>, &'r W)>>(i: &mut Inner<I>) {
    let s = S.g();
    match i.it.next() {
        None => {
            i.done = true;
            for y in 0..NL {
                if s.r >> y & 1 == 1 && i.got >> y & 1 == 0 {
                    ck(c(13), !s.m[i.x][y], "an inner iterator misses a matching right entry");
                }
            }
        }
        Some((k, v)) => {
            let y = k.q.id as usize - BASE;
            ck(c(13), !i.done, "an iterator yields again after its end");
            ck(c(13), v.get() == 100 + k.q.id as i64, "a right entry is yielded with another value");
            ck(c(13), i.got >> y & 1 == 0, "an inner iterator yields a right entry twice");
            ck(c(13), s.m[i.x][y], "an inner iterator yields a right entry that does not match");
            i.got |= 1 << y;
        }
    }
}
fn schedule<'l, 'r, const D: usize, const E: usize, V: HV, W: HV, I, O>(it: O, steps: i64, maxin: usize)
where
    I: Iterator<Item = (&'r HK<E>, &'r W)>,
    O: Iterator<Item = ((&'l HK<D>, &'l V), I)>,
{
    let s = S.g();
    let mut outer = Some(it);
    let mut inners: Vec<Option<Inner<I>>> = Vec::new();
    let mut seen = 0u64;
    let mut ended = false;
    let mut out = |outer: &mut O, inners: &mut Vec<Option<Inner<I>>>, ended: &mut bool, seen: &mut u64| match outer.next() {
        None => {
            *ended = true;
            ck(c(13), *seen == s.l, "the outer iterator ends early");
        }
        Some(((k, v), it)) => {
            let x = k.q.id as usize;
            ck(c(13), !*ended, "an iterator yields again after its end");
            ck(c(13), v.get() == 100 + x as i64, "a left entry is yielded with another value");
            ck(c(13), *seen >> x & 1 == 0 && s.l >> x & 1 == 1, "a left entry is yielded twice");
            *seen |= 1 << x;
            inners.push(Some(Inner { it, x, got: 0, done: false }));
        }
    };
    for _ in 0..steps {
        // outer next, outer drop, inner next, inner drop
        let mut ops: [(u8, u8); 64] = [(0, 0); 64];
        let mut n = 0;
        if outer.is_some() {
            if inners.len() < maxin {
                ops[n] = (0, 0);
                n += 1;
            }
            ops[n] = (1, 0);
            n += 1;
        }
        for (i, x) in inners.iter().enumerate() {
            if let Some(x) = x {
                if !x.done {
                    ops[n] = (2, i as u8);
                    n += 1;
                }
                ops[n] = (3, i as u8);
                n += 1;
            }
        }
        if n == 0 {
            break;
        }
        let (op, i) = ops[choice(n)];
        match op {
            0 => out(outer.as_mut().unwrap(), &mut inners, &mut ended, &mut seen),
            1 => {
                cover(40);
                outer = None
            }
            2 => step(inners[i as usize].as_mut().unwrap()),
            _ => {
                cover(41);
                inners[i as usize] = None
            }
        }
    }
    // everything that is left is drained
    while outer.is_some() && !ended {
        out(outer.as_mut().unwrap(), &mut inners, &mut ended, &mut seen);
        check(inners.len() <= NL, "more left entries than there are");
    }
    for i in 0..inners.len() {
        if let Some(x) = inners[i].as_mut() {
            let mut k = 0;
            while !x.done {
                step(x);
                k += 1;
                check(k <= NL + 1, "more right entries than there are");
            }
            cover(42);
            inners[i] = None;
        }
    }
}

fn run<const D: usize, const E: usize, V: HV, W: HV>(ls: &Setup, rs: &Setup, pat: i64, extra: i64, mode: i64) {
    {
        let (l, lm) = build::<D, V>(ls, 0);
        let (r, rm) = build::<E, W>(rs, BASE as u32);
        setup(&l, &lm, &r, &rm, pat, extra);
        match mode {
            0 => join(&l, &r),
            1 => left(&l, &r),
            2 => {
                // C26
                let (sl, sr) = (snap(&l), snap(&r));
                let both = choice(2) == 0;
                if both {
                    join(&l, &r);
                } else {
                    left(&l, &r);
                    pruned(&sl, &sr, c(26));
                }
                asked(&sl, &sr, both);
            }
            m => {
                let before = live();
                schedule::<D, E, V, W, _, _>(l.left_join(&r, AnyJoin), m % 100, (m / 100) as usize);
                ck(c(13), live() == before, "a buffer of left_join is not released, or released twice");
            }
        }
        cover(9);
    }
    ck(c(15) | c(13), live_tokens() == 0, "a key or value is never dropped");
}

/// params: prop  max min n seed geo rm  max min n seed geo rm  pattern extra mode dims
#[no_mangle]
pub extern "C" fn h_join() {
    start();
    let p = |i: u64| param(i);
    let ls = Setup { max: p(1) as usize, min: p(2) as usize, n: p(3), seed: p(4), geo: p(5), rm: p(6) };
    let rs = Setup { max: p(7) as usize, min: p(8) as usize, n: p(9), seed: p(10), geo: p(11), rm: p(12) };
    let (pat, extra, mode) = (p(13), p(14), p(15));
    match p(16) {
        0 => run::<1, 1, i64, i64>(&ls, &rs, pat, extra, mode),
        1 => run::<1, 2, i64, TV>(&ls, &rs, pat, extra, mode),
        _ => run::<2, 1, TV, i64>(&ls, &rs, pat, extra, mode),
    }
}

/// C25: the search for the right entries that join one left key.
fn joining<const D: usize, const E: usize, V: HV, W: HV>(ls: &Setup, rs: &Setup, pat: i64, extra: i64) {
    let (l, lm) = build::<D, V>(ls, 0);
    let (mut r, rm) = build::<E, W>(rs, BASE as u32);
    setup(&l, &lm, &r, &rm, pat, extra);
    let s = S.g();
    let rsnap = snap(&r);
    let order: Vec<u32> = r.iter().map(|e| e.0.q.id).collect();
    let ks: Vec<&HQ<D>> = l.iter().map(|e| &e.0.q).collect();
    let x = choice(ks.len());
    let k = ks[x];
    let x = k.id as usize;
    let mut got: Vec<u32> = Vec::new();
    if choice(2) == 0 {
        let mut it = r.filter_iter(JoiningFilter::new(k, AnyJoin));
        while let Some((k, v)) = it.next() {
            ck(c(25), v.get() == 100 + k.q.id as i64, "a right entry is yielded with another value");
            got.push(k.q.id);
            check(got.len() <= order.len(), "more right entries than there are");
        }
        ck(c(25), it.next().is_none(), "an iterator yields again after its end");
    } else {
        let mut it = r.filter_iter_mut(JoiningFilter::new(k, AnyJoin));
        while let Some((k, v)) = it.next() {
            ck(c(25), v.get() == 100 + k.q.id as i64, "a right entry is yielded with another value");
            got.push(k.q.id);
            check(got.len() <= order.len(), "more right entries than there are");
        }
    }
    let mut p = 0;
    for id in &order {
        let y = *id as usize - BASE;
        if p < got.len() && got[p] == *id {
            p += 1;
            cover(36);
            ck(c(25), s.m[x][y], "a right entry is yielded that does not match the left key");
        } else {
            cover(37);
            ck(c(25), !s.m[x][y], "a matching right entry is not yielded, or out of order");
        }
    }
    ck(c(25), p == got.len(), "a right entry is yielded twice");
    for z in 0..NL {
        ck(c(25), z == x || s.tested[z] == 0, "another left key is tested");
    }
    // the left bounds that are tested are those of the key
    for i in 0..s.np {
        let [a, b, _, _] = s.pg[i];
        ck(c(25), a == s.llo[x] && b == s.lhi[x], "bounds other than those of the left key are tested");
    }
    // a right key is tested only if all nodes above it were accepted
    for n in &rsnap.nodes {
        if s.tested[x] & (n.keys >> BASE) != 0 {
            let mut ok = false;
            for i in 0..s.np {
                let [_, _, cc, d] = s.pg[i];
                ok = ok || (s.pacc[i] && cc == n.b.lo[0] && d == n.b.hi[0]);
            }
            cover(38);
            ck(c(25), ok, "a right key is tested below bounds that were not accepted");
        }
    }
    cover(9);
}

/// params as h_join, without the mode
#[no_mangle]
pub extern "C" fn h_joining() {
    start();
    let p = |i: u64| param(i);
    let ls = Setup { max: p(1) as usize, min: p(2) as usize, n: p(3), seed: p(4), geo: p(5), rm: p(6) };
    let rs = Setup { max: p(7) as usize, min: p(8) as usize, n: p(9), seed: p(10), geo: p(11), rm: p(12) };
    match p(15) {
        0 => joining::<1, 1, i64, i64>(&ls, &rs, p(13), p(14)),
        1 => joining::<1, 2, i64, TV>(&ls, &rs, p(13), p(14)),
        _ => joining::<2, 1, TV, i64>(&ls, &rs, p(13), p(14)),
    }
}
