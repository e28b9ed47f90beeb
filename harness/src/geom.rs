//! C18-C22: the built-in geometry, filters and rankings.
use crate::hb::*;
use crate::sym::*;
use noisy_float::types::{n64, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::*;
use rusty_rtree::geom::line::Line;
use rusty_rtree::geom::ray::Ray;
use rusty_rtree::geom::sphere::Sphere;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::{EuclideanDistanceRanking, PointDistance, Ranking};
use rusty_rtree::vector::{SVec, Vector};
use rusty_rtree::*;

type P<const D: usize> = [i64; D];

pub trait Num: Copy + Ord + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + std::ops::AddAssign + num_traits::Bounded + 'static {
    fn mk(x: i64) -> Self;
    fn get(self) -> i64;
}
impl Num for i32 {
    fn mk(x: i64) -> Self {
        x as i32
    }
    fn get(self) -> i64 {
        self as i64
    }
}
impl Num for i64 {
    fn mk(x: i64) -> Self {
        x
    }
    fn get(self) -> i64 {
        self
    }
}
impl Num for N64 {
    fn mk(x: i64) -> Self {
        n64(x as f64)
    }
    fn get(self) -> i64 {
        self.raw() as i64
    }
}

fn any<const D: usize>(lo: i64, hi: i64) -> P<D> {
    let mut p = [0; D];
    for d in 0..D {
        p[d] = int(lo, hi);
    }
    p
}
/// A box with min <= max.
fn any_box<const D: usize>(lo: i64, hi: i64) -> (P<D>, P<D>) {
    let (a, b) = (any::<D>(lo, hi), any::<D>(lo, hi));
    for d in 0..D {
        assume(a[d] <= b[d]);
    }
    (a, b)
}
fn v<N: Num, const D: usize>(p: &P<D>) -> SVec<N, D> {
    let mut r = [N::mk(0); D];
    for d in 0..D {
        r[d] = N::mk(p[d]);
    }
    SVec(r)
}
fn bx<N: Num, const D: usize>(b: &(P<D>, P<D>)) -> SAABB<N, D> {
    AABB { min: v(&b.0), max: v(&b.1) }
}
fn inside<const D: usize>(p: &P<D>, b: &(P<D>, P<D>)) -> bool {
    let mut r = true;
    for d in 0..D {
        r = r & (b.0[d] <= p[d]) & (p[d] <= b.1[d]);
    }
    r
}
fn within<const D: usize>(a: &(P<D>, P<D>), b: &(P<D>, P<D>)) -> bool {
    inside(&a.0, b) & inside(&a.1, b)
}
fn meet<const D: usize>(a: &(P<D>, P<D>), b: &(P<D>, P<D>)) -> bool {
    let mut r = true;
    for d in 0..D {
        r = r & (a.0[d] <= b.1[d]) & (b.0[d] <= a.1[d]);
    }
    r
}
fn min(a: i64, b: i64) -> i64 {
    ite(a <= b, a, b)
}
fn max(a: i64, b: i64) -> i64 {
    ite(a >= b, a, b)
}
fn raw<N: Num, const D: usize>(b: &SAABB<N, D>) -> (P<D>, P<D>) {
    let mut r = ([0; D], [0; D]);
    for d in 0..D {
        r.0[d] = b.min.0[d].get();
        r.1[d] = b.max.0[d].get();
    }
    r
}
fn eqb<const D: usize>(a: &(P<D>, P<D>), b: &(P<D>, P<D>)) -> bool {
    let mut r = true;
    for d in 0..D {
        r = r & (a.0[d] == b.0[d]) & (a.1[d] == b.1[d]);
    }
    r
}
fn eqp<N: Num, const D: usize>(a: &SVec<N, D>, b: &P<D>) -> bool {
    let mut r = true;
    for d in 0..D {
        r = r & (a.0[d].get() == b[d]);
    }
    r
}
/// `b` is empty(): the largest corner below the smallest.
fn is_empty<N: Num, const D: usize>(b: &SAABB<N, D>) -> bool {
    let mut r = true;
    for d in 0..D {
        r = r & (b.min.0[d] == N::max_value()) & (b.max.0[d] == N::min_value());
    }
    r
}

// ------------------------------------------------------------------ C18

fn boxes<N: Num, const D: usize>(part: i64, lo: i64, hi: i64) {
    let a = any_box::<D>(lo, hi);
    let ba = bx::<N, D>(&a);
    match part {
        // points and boxes
        0 => {
            let p = any::<D>(lo, hi);
            let vp = v::<N, D>(&p);
            let want = inside(&p, &a);
            let r = ba.contains(&vp);
            cover(70 + r as u64);
            ck(c(18), r == want, "contains(point) is wrong");
            ck(c(18), Intersects::<SVec<N, D>>::intersects(&ba, &vp) == want, "a box's intersects(point) is wrong");
            ck(c(18), Intersects::<SAABB<N, D>>::intersects(&vp, &ba) == want, "a point's intersects(box) is wrong");
        }
        1 => {
            let b = any_box::<D>(lo, hi);
            let bb = bx::<N, D>(&b);
            let want = within(&b, &a);
            let r = ba.contains(&bb);
            cover(70 + r as u64);
            ck(c(18), r == want, "contains(box) is wrong");
            ck(c(18), r == (ba.contains(&bb.min) && ba.contains(&bb.max)), "contains(box) disagrees with the corners");
        }
        2 => {
            let b = any_box::<D>(lo, hi);
            let bb = bx::<N, D>(&b);
            let r = Intersects::<SAABB<N, D>>::intersects(&ba, &bb);
            cover(70 + r as u64);
            let s = Intersects::<SAABB<N, D>>::intersects(&bb, &ba);
            ck(c(18), r == s, "intersects is not symmetric");
            let mut w = [0; D];
            for d in 0..D {
                w[d] = max(a.0[d], b.0[d]);
            }
            // the witness is in both whenever any point is
            let p = any::<D>(lo, hi);
            ck(c(18), !r | (inside(&w, &a) & inside(&w, &b)), "intersects() although no point is shared");
            ck(c(18), r | !(inside(&p, &a) & inside(&p, &b)), "not intersects() although a point is shared");
        }
        // unions
        3 => {
            let b = any_box::<D>(lo, hi);
            let e = any_box::<D>(lo, hi);
            let u = AABB::union(&ba, &bx::<N, D>(&b));
            let ru = raw(&u);
            ck(c(18), within(&a, &ru) & within(&b, &ru), "union does not contain its operands");
            ck(c(18), !(within(&a, &e) & within(&b, &e)) | within(&ru, &e), "union is not the smallest box");
            let u2 = AABB::union(&bx::<N, D>(&b), &ba);
            ck(c(18), eqb(&ru, &raw(&u2)), "union is not commutative");
            cover(70);
            cover(71);
        }
        4 => {
            let b = any_box::<D>(lo, hi);
            let e = any_box::<D>(lo, hi);
            let (bb, be) = (bx::<N, D>(&b), bx::<N, D>(&e));
            let x = AABB::union(&AABB::union(&ba, &bb), &be);
            let y = AABB::union(&ba, &AABB::union(&bb, &be));
            ck(c(18), eqb(&raw(&x), &raw(&y)), "union is not associative");
            let z = AABB::union_all([ba, bb, be]);
            ck(c(18), eqb(&raw(&x), &raw(&z)), "union_all differs from repeated union");
            let z = AABB::union_all([be, ba]);
            ck(c(18), eqb(&raw(&AABB::union(&ba, &be)), &raw(&z)), "union_all differs from union");
            let z = AABB::union_all([ba]);
            ck(c(18), eqb(&a, &raw(&z)), "union_all of one box is another box");
            cover(70);
            cover(71);
        }
        5 => {
            let em = SAABB::<N, D>::empty();
            ck(c(18), is_empty(&AABB::union(&em, &SAABB::<N, D>::empty())), "the union of empty boxes is not empty()");
            ck(c(18), eqb(&a, &raw(&AABB::union(&ba, &em))), "empty() is not a right identity");
            ck(c(18), eqb(&a, &raw(&AABB::union(&em, &ba))), "empty() is not a left identity");
            let none: [SAABB<N, D>; 0] = [];
            ck(c(18), is_empty(&SAABB::<N, D>::union_all(none)), "union_all of nothing is not empty()");
            ck(c(18), is_empty(&em), "empty() is not the least box");
            ck(c(18), eqb(&a, &raw(&AABB::union_all([SAABB::<N, D>::empty(), ba]))), "empty() is not an identity in union_all");
            cover(70);
            cover(71);
        }
        // bounds
        6 => {
            let (p, q) = (any::<D>(lo, hi), any::<D>(lo, hi));
            let b: SAABB<N, D> = v::<N, D>(&p).bounds();
            ck(c(18), inside(&p, &raw(&b)), "a point is outside its bounds");
            ck(c(18), b.contains(&v::<N, D>(&p)), "the bounds of a point do not contain it");
            let b: SAABB<N, D> = Bounded::<SAABB<N, D>>::bounds(&ba);
            ck(c(18), within(&a, &raw(&b)), "a box is outside its bounds");
            let l = Line(v::<N, D>(&p), v::<N, D>(&q));
            let b: SAABB<N, D> = l.bounds();
            let rb = raw(&b);
            ck(c(18), inside(&p, &rb) & inside(&q, &rb), "a segment is outside its bounds");
            cover(70);
            cover(71);
        }
        // order and componentwise minimum and maximum
        _ => {
            let (p, q) = (any::<D>(lo, hi), any::<D>(lo, hi));
            let (vp, vq) = (v::<N, D>(&p), v::<N, D>(&q));
            let (mut le, mut ge) = (true, true);
            let (mut mn, mut mx) = ([0; D], [0; D]);
            for d in 0..D {
                le = le & (p[d] <= q[d]);
                ge = ge & (p[d] >= q[d]);
                mn[d] = min(p[d], q[d]);
                mx[d] = max(p[d], q[d]);
            }
            let r = vp.all_le(&vq);
            cover(70 + r as u64);
            ck(c(18), r == le, "all_le is wrong");
            ck(c(18), vp.all_ge(&vq) == ge, "all_ge is wrong");
            ck(c(18), eqp(&vp.componentwise_min(&vq), &mn), "componentwise_min is wrong");
            ck(c(18), eqp(&vp.componentwise_max(&vq), &mx), "componentwise_max is wrong");
            let lo = SVec::<N, D>::min_value();
            let hi = SVec::<N, D>::max_value();
            ck(c(18), lo.all_le(&vp) && hi.all_ge(&vp), "min_value or max_value is not extreme");
        }
    }
    cover(9);
}

/// Arithmetic within a range that does not overflow.
fn arith<N: Num, const D: usize>(lo: i64, hi: i64) {
    let (p, q) = (any::<D>(lo, hi), any::<D>(lo, hi));
    let (vp, vq) = (v::<N, D>(&p), v::<N, D>(&q));
    let (mut s, mut m) = ([0; D], [0; D]);
    let mut sq = 0;
    for d in 0..D {
        s[d] = p[d] + q[d];
        m[d] = p[d] - q[d];
        sq += p[d] * p[d];
    }
    ck(c(18), eqp(&(vp + vq), &s), "vector addition is wrong");
    ck(c(18), eqp(&(vp - vq), &m), "vector subtraction is wrong");
    let mut w = vp;
    w += vq;
    ck(c(18), eqp(&w, &s), "vector += is wrong");
    let d = choice(D);
    ck(c(18), vp[d].get() == p[d], "indexing is wrong");
    w[d] = vq[d];
    for e in 0..D {
        ck(c(18), w[e].get() == if e == d { q[e] } else { s[e] }, "mutable indexing is wrong");
    }
    ck(c(18), vp.sq_mag().get() == sq, "sq_mag is wrong");
    let t = vp.into_map(|x| x.get() * 2);
    for e in 0..D {
        ck(c(18), t.0[e] == 2 * p[e], "into_map is wrong");
    }
    let mut i = 0;
    for (x, y) in vp.zip(&vq) {
        ck(c(18), x.get() == p[i] && y.get() == q[i], "zip is wrong");
        i += 1;
    }
    ck(c(18), i == D, "zip is too short");
    cover(9);
}
/// Volumes and lengths; `N: Into<f64>` only.
fn volume<N: Num + Into<f64>, const D: usize>(lo: i64, hi: i64) {
    let a = any_box::<D>(lo, hi);
    let mut want = 1;
    for d in 0..D {
        want *= a.1[d] - a.0[d];
    }
    ck(c(18), bx::<N, D>(&a).volume() == n64(want as f64), "volume is not the product of the side lengths");
    let (p, q) = (any::<D>(lo, hi), any::<D>(lo, hi));
    let l = Line(v::<N, D>(&p), v::<N, D>(&q));
    let mut sq = 0;
    let mut de = [0; D];
    for d in 0..D {
        de[d] = q[d] - p[d];
        sq += de[d] * de[d];
    }
    ck(c(18), eqp(&l.delta(), &de), "the delta of a segment is wrong");
    ck(c(18), l.sq_len() == sq as f64, "the squared length of a segment is wrong");
    cover(9);
}

/// params: prop D number-type part lo hi
#[no_mangle]
pub extern "C" fn h_box() {
    start();
    let (part, lo, hi) = (param(3), param(4), param(5));
    macro_rules! d {
        ($n:ty) => {
            match param(1) {
                1 => boxes::<$n, 1>(part, lo, hi),
                2 => boxes::<$n, 2>(part, lo, hi),
                3 => boxes::<$n, 3>(part, lo, hi),
                _ => boxes::<$n, 4>(part, lo, hi),
            }
        };
    }
    macro_rules! a {
        ($f:ident, $n:ty) => {
            match param(1) {
                1 => $f::<$n, 1>(lo, hi),
                2 => $f::<$n, 2>(lo, hi),
                _ => $f::<$n, 3>(lo, hi),
            }
        };
    }
    match (part, param(2)) {
        (20, 0) => a!(arith, i32),
        (20, 1) => a!(arith, i64),
        (20, _) => a!(arith, N64),
        (21, 0) => a!(volume, i32),
        (21, _) => a!(volume, N64),
        (_, 0) => d!(i32),
        (_, 1) => d!(i64),
        _ => d!(N64),
    }
}

// ------------------------------------------------------------------ C21

fn dsq<const D: usize>(p: &P<D>, q: &P<D>) -> i64 {
    let mut s = 0;
    for d in 0..D {
        s += (p[d] - q[d]) * (p[d] - q[d]);
    }
    s
}
fn dist<N: Num, const D: usize>(part: i64, lo: i64, hi: i64) {
    let p = any::<D>(lo, hi);
    let vp = v::<N, D>(&p);
    match part {
        0 => {
            let q = any::<D>(lo, hi);
            let vq = v::<N, D>(&q);
            ck(c(21), vp.dist_sq(&vq).get() == dsq(&p, &q), "dist_sq of points is not the sum of squared differences");
            let r = EuclideanDistanceRanking::<SVec<N, D>, N>::new(vp);
            let k = Ranking::<SAABB<N, D>, SVec<N, D>>::rank_key(&r, &vq);
            ck(c(21), k.get() == dsq(&p, &q), "the rank of a point is not its distance");
        }
        1 => {
            // the nearest point of the box, componentwise
            let a = any_box::<D>(lo, hi);
            let ba = bx::<N, D>(&a);
            let mut n = [0; D];
            for d in 0..D {
                n[d] = max(a.0[d], min(a.1[d], p[d]));
            }
            let want = dsq(&n, &p);
            ck(c(21), ba.dist_sq(&vp).get() == want, "dist_sq of a box is not the distance of its nearest point");
            let r = EuclideanDistanceRanking::<SVec<N, D>, N>::new(vp);
            ck(c(21), Ranking::<SAABB<N, D>, SAABB<N, D>>::rank_key(&r, &ba).get() == want, "the rank of a box is not its distance");
            ck(c(21), Ranking::<SAABB<N, D>, SVec<N, D>>::bounds_min(&r, &ba).get() == want, "the lower bound of a box is not its distance");
        }
        2 => {
            // never above the distance of a point inside, attained, and monotone
            let a = any_box::<D>(lo, hi);
            let q = any::<D>(lo, hi);
            assume(inside(&q, &a));
            let r = EuclideanDistanceRanking::<SVec<N, D>, N>::new(vp);
            let m = Ranking::<SAABB<N, D>, SVec<N, D>>::bounds_min(&r, &bx(&a)).get();
            ck(c(21), m <= dsq(&p, &q), "the distance of a box exceeds that of a point inside");
            ck(c(21), m <= Ranking::<SAABB<N, D>, SVec<N, D>>::rank_key(&r, &v(&q)).get(), "the lower bound exceeds the rank of a key inside");
            ck(c(21), !inside(&p, &a) | (m == 0), "a box that contains the point has a distance");
        }
        _ => {
            let a = any_box::<D>(lo, hi);
            let b = any_box::<D>(lo, hi);
            assume(within(&b, &a));
            let r = EuclideanDistanceRanking::<SVec<N, D>, N>::new(vp);
            let m = Ranking::<SAABB<N, D>, SAABB<N, D>>::bounds_min(&r, &bx(&a)).get();
            let k = Ranking::<SAABB<N, D>, SAABB<N, D>>::rank_key(&r, &bx(&b)).get();
            ck(c(21), m <= k, "the lower bound exceeds the rank of a key inside");
            let m2 = Ranking::<SAABB<N, D>, SAABB<N, D>>::bounds_min(&r, &bx(&b)).get();
            ck(c(21), m <= m2, "the lower bound decreases when the box shrinks");
        }
    }
    cover(9);
}
fn boxdist<N: Num + Into<f64>, const D: usize>(part: i64, lo: i64, hi: i64) {
    let a = any_box::<D>(lo, hi);
    let b = any_box::<D>(lo, hi);
    let (ba, bb) = (bx::<N, D>(&a), bx::<N, D>(&b));
    let s = ba.sq_dist_to(&bb);
    if part == 10 {
        // the gap between the boxes, componentwise
        let mut want = 0;
        for d in 0..D {
            let g = max(0, max(b.0[d] - a.1[d], a.0[d] - b.1[d]));
            want += g * g;
        }
        ck(c(21), s == n64(want as f64), "sq_dist_to is not the squared gap between the boxes");
        ck(c(21), s == bb.sq_dist_to(&ba), "sq_dist_to is not symmetric");
    } else {
        let (p, q) = (any::<D>(lo, hi), any::<D>(lo, hi));
        assume(inside(&p, &a) & inside(&q, &b));
        ck(c(21), s <= n64(dsq(&p, &q) as f64), "sq_dist_to exceeds the distance of two points of the boxes");
        let (mut x, mut y) = ([0; D], [0; D]);
        for d in 0..D {
            x[d] = min(a.1[d], max(a.0[d], b.0[d]));
            y[d] = max(b.0[d], min(b.1[d], x[d]));
        }
        check(inside(&x, &a) & inside(&y, &b), "a witness point is not inside both boxes");
        ck(c(21), s >= n64(dsq(&x, &y) as f64), "sq_dist_to is below every distance of points of the boxes");
    }
    cover(9);
}

/// Concrete keys of a layout.
fn place(seed: i64, i: i64, d: usize, w: i64) -> i64 {
    let mut x = (seed * 7919 + i * 104729 + d as i64 * 1299709 + 12345) as u64;
    x ^= x >> 7;
    x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    ((x >> 40) % (w as u64)) as i64 - w / 2
}
fn keys<const D: usize>(seed: i64, n: i64, w: i64, ext: i64) -> Vec<(P<D>, P<D>)> {
    let mut r = Vec::new();
    for i in 0..n {
        let mut b = ([0; D], [0; D]);
        for d in 0..D {
            b.0[d] = match seed {
                0 => i * 2 * (1 - d as i64 * 2 * (i % 2)),
                1 => 3,
                _ => place(seed, i, d, w),
            };
            b.1[d] = b.0[d] + if ext > 0 { place(seed + 77, i, d, ext).abs() } else { 0 };
        }
        r.push(b);
    }
    r
}
fn config(mx: i64, mn: i64) -> RTreeConfig {
    RTreeConfig { max_children: mx as usize, min_children: mn as usize }
}
/// Trees over the real boxes, keyed by points and by boxes.
fn points<N: Num + Into<f64>, const D: usize>(mx: i64, mn: i64, ks: &[(P<D>, P<D>)]) -> RTree<SAABB<N, D>, SVec<N, D>, i64> {
    let mut t = RTree::new(config(mx, mn));
    for (i, k) in ks.iter().enumerate() {
        t.insert(v::<N, D>(&k.0), i as i64);
    }
    t
}
fn boxed<N: Num + Into<f64>, const D: usize>(mx: i64, mn: i64, ks: &[(P<D>, P<D>)]) -> RTree<SAABB<N, D>, SAABB<N, D>, i64> {
    let mut t = RTree::new(config(mx, mn));
    for (i, k) in ks.iter().enumerate() {
        t.insert(bx::<N, D>(k), i as i64);
    }
    t
}

fn gap<const D: usize>(p: &P<D>, b: &(P<D>, P<D>)) -> i64 {
    let mut s = 0;
    for d in 0..D {
        let g = max(0, max(b.0[d] - p[d], p[d] - b.1[d]));
        s += g * g;
    }
    s
}
/// Nearest-neighbour search from any point.
fn nearest<N: Num + Into<f64>, const D: usize>(kind: i64, mx: i64, mn: i64, seed: i64, n: i64, w: i64) {
    let p = any::<D>(-w, w);
    let vp = v::<N, D>(&p);
    let ext = if kind % 2 == 1 { w / 2 } else { 0 };
    let ks = keys::<D>(seed, n, w, ext);
    let rank = EuclideanDistanceRanking::<SVec<N, D>, N>::new(vp);
    let mut order: Vec<i64> = Vec::new();
    match kind {
        0 => {
            let t = points::<N, D>(mx, mn, &ks);
            order.push(*t.min_by(rank).unwrap().1);
        }
        1 => {
            let t = boxed::<N, D>(mx, mn, &ks);
            order.push(*t.min_by(rank).unwrap().1);
        }
        2 => {
            let t = points::<N, D>(mx, mn, &ks);
            for (_, i) in t.iter_asc_by(rank) {
                order.push(*i);
            }
        }
        _ => {
            let t = boxed::<N, D>(mx, mn, &ks);
            for (_, i) in t.iter_asc_by(rank) {
                order.push(*i);
            }
        }
    }
    ck(c(21), order.len() as i64 == if kind < 2 { 1 } else { n }, "a search by distance yields another number of entries");
    let mut left: Vec<usize> = (0..ks.len()).collect();
    for i in order {
        let g = gap(&p, &ks[i as usize]);
        for k in &left {
            ck(c(21), g <= gap(&p, &ks[*k]), "an entry farther than another is yielded first");
        }
        left.retain(|k| *k as i64 != i);
    }
    cover(9);
}

/// params: prop D number-type part lo hi, or prop D number-type 20+kind max min seed n w
#[no_mangle]
pub extern "C" fn h_dist() {
    start();
    let (part, lo, hi) = (param(3), param(4), param(5));
    macro_rules! a {
        ($f:ident, $n:ty) => {
            match param(1) {
                1 => $f::<$n, 1>(part, lo, hi),
                2 => $f::<$n, 2>(part, lo, hi),
                _ => $f::<$n, 3>(part, lo, hi),
            }
        };
    }
    if part >= 20 {
        let (mx, mn, seed, n, w) = (param(4), param(5), param(6), param(7), param(8));
        return match (param(1), param(2)) {
            (1, 0) => nearest::<i32, 1>(part - 20, mx, mn, seed, n, w),
            (2, 0) => nearest::<i32, 2>(part - 20, mx, mn, seed, n, w),
            (3, 0) => nearest::<i32, 3>(part - 20, mx, mn, seed, n, w),
            _ => nearest::<N64, 2>(part - 20, mx, mn, seed, n, w),
        };
    }
    match (part >= 10, param(2)) {
        (true, 0) => a!(boxdist, i32),
        (true, _) => a!(boxdist, N64),
        (_, 0) => a!(dist, i32),
        (_, 1) => a!(dist, i64),
        _ => a!(dist, N64),
    }
}

// ------------------------------------------------------------------ C19

/// The bounds test and the key test of a filter, on any key and any box that
/// contains it; or a search of a tree.
struct Both<const D: usize> {
    k: (P<D>, P<D>),
    b: (P<D>, P<D>),
    point: bool,
}
fn contract<N: Num, F, const D: usize>(x: &Both<D>, f: F, want: bool, want_box: bool)
where
    F: SpatialFilter<SAABB<N, D>, SVec<N, D>> + SpatialFilter<SAABB<N, D>, SAABB<N, D>>,
{
    let tb = SpatialFilter::<SAABB<N, D>, SVec<N, D>>::test_bounds(&f, &bx(&x.b));
    if x.point {
        let tk = f.test_key(&v::<N, D>(&x.k.0));
        result(tk, tb, want);
    } else {
        let tk = f.test_key(&bx::<N, D>(&x.k));
        result(tk, tb, want_box);
    }
}
fn result(tk: bool, tb: bool, want: bool) {
    cover(72 + tk as u64);
    ck(c(19), tk == want, "the filter's key test is not the geometric test");
    ck(c(19), tb | !want, "the filter prunes a box that contains a matching key");
}
fn contract_box<N: Num, F, const D: usize>(x: &Both<D>, f: F, want: bool)
where
    F: SpatialFilter<SAABB<N, D>, SAABB<N, D>>,
{
    result(f.test_key(&bx::<N, D>(&x.k)), f.test_bounds(&bx(&x.b)), want);
}
fn contract_point<N: Num, F, const D: usize>(x: &Both<D>, f: F, want: bool)
where
    F: SpatialFilter<SAABB<N, D>, SVec<N, D>>,
{
    result(f.test_key(&v::<N, D>(&x.k.0)), f.test_bounds(&bx(&x.b)), want);
}
fn filters<N: Num, const D: usize>(kind: i64, point: bool, lo: i64, hi: i64) {
    let k = if point {
        let p = any::<D>(lo, hi);
        (p, p)
    } else {
        any_box::<D>(lo, hi)
    };
    let b = any_box::<D>(lo, hi);
    assume(within(&k, &b));
    let x = Both { k, b, point };
    let s = any_box::<D>(lo, hi);
    let bs = bx::<N, D>(&s);
    let p = s.0;
    let vp = v::<N, D>(&p);
    match kind {
        0 => contract::<N, _, D>(&x, IntersectsFilter::new(bs), inside(&k.0, &s), meet(&k, &s)),
        1 => contract::<N, _, D>(&x, BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(bs), inside(&k.0, &s), meet(&k, &s)),
        2 => contract::<N, _, D>(&x, ContainsFilter::new(bs), inside(&k.0, &s), within(&k, &s)),
        3 => contract::<N, _, D>(&x, BoundedContainsFilter::<SAABB<N, D>, _>::new_bounded(bs), inside(&k.0, &s), within(&k, &s)),
        4 => contract::<N, _, D>(&x, NoFilter, true, true),
        5 => contract_box::<N, _, D>(&x, IntersectsFilter::new(vp), inside(&p, &k)),
        _ => contract_box::<N, _, D>(&x, BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(vp), inside(&p, &k)),
    }
    cover(9);
}
fn spheres<N: Num + Into<f64>, const D: usize>(lo: i64, hi: i64, rmax: i64) {
    let k = any::<D>(lo, hi);
    let b = any_box::<D>(lo, hi);
    assume(inside(&k, &b));
    let p = any::<D>(lo, hi);
    let r = int(0, rmax);
    let want = dsq(&k, &p) <= r * r;
    let sp = || Sphere { center: v::<N, D>(&p), radius: N::mk(r) };
    let vk = v::<N, D>(&k);
    ck(c(19), Intersects::<SVec<N, D>>::intersects(&sp(), &vk) == want, "a sphere's intersects(point) is wrong");
    ck(c(19), Intersects::<Sphere<N, D>>::intersects(&vk, &sp()) == want, "a point's intersects(sphere) is wrong");
    let x = Both { k: (k, k), b, point: true };
    contract_point::<N, _, D>(&x, BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(sp()), want);
    cover(9);
}
fn found(got: &[i64], want: &[bool]) {
    let mut seen = 0u64;
    for i in got {
        ck(c(19), seen >> *i & 1 == 0, "a search yields an entry twice");
        seen |= 1 << *i;
    }
    for (i, w) in want.iter().enumerate() {
        let hit = seen >> i & 1 == 1;
        cover(72 + hit as u64);
        ck(c(19), hit == *w, "a search does not yield exactly the matching entries");
    }
}
/// Searches of whole trees with any shape.
fn search<N: Num + Into<f64>, const D: usize>(kind: i64, point: bool, mx: i64, mn: i64, seed: i64, n: i64, w: i64, symkeys: i64) {
    let mut ks = keys::<D>(seed, n, w, if point { 0 } else { w / 2 });
    // some keys may lie anywhere
    for i in 0..symkeys as usize {
        ks[i] = if point {
            let p = any::<D>(-w, w);
            (p, p)
        } else {
            any_box::<D>(-w, w)
        };
    }
    macro_rules! run {
        ($f:expr, $wp:expr, $wb:expr) => {{
            let mut got = Vec::new();
            if point {
                let t = points::<N, D>(mx, mn, &ks);
                for (_, i) in t.filter_iter($f) {
                    got.push(*i);
                }
                let want: Vec<bool> = ks.iter().map(|k| $wp(&k.0)).collect();
                found(&got, &want);
            } else {
                let t = boxed::<N, D>(mx, mn, &ks);
                for (_, i) in t.filter_iter($f) {
                    got.push(*i);
                }
                let want: Vec<bool> = ks.iter().map(|k| $wb(k)).collect();
                found(&got, &want);
            }
        }};
    }
    macro_rules! run1 {
        ($b:ident, $f:expr, $w:expr) => {{
            let mut got = Vec::new();
            let t = $b::<N, D>(mx, mn, &ks);
            for (_, i) in t.filter_iter($f) {
                got.push(*i);
            }
            let want: Vec<bool> = ks.iter().map(|k| $w(k)).collect();
            found(&got, &want);
        }};
    }
    let s = any_box::<D>(-w, w);
    let bs = bx::<N, D>(&s);
    let p = s.0;
    let vp = v::<N, D>(&p);
    match kind {
        0 => run!(IntersectsFilter::new(bs), |k| inside(k, &s), |k| meet(k, &s)),
        1 => run!(BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(bs), |k| inside(k, &s), |k| meet(k, &s)),
        2 => run!(ContainsFilter::new(bs), |k| inside(k, &s), |k| within(k, &s)),
        3 => run!(BoundedContainsFilter::<SAABB<N, D>, _>::new_bounded(bs), |k| inside(k, &s), |k| within(k, &s)),
        4 => run!(NoFilter, |_| true, |_| true),
        5 => run1!(boxed, IntersectsFilter::new(vp), |k| inside(&p, k)),
        6 => run1!(boxed, BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(vp), |k| inside(&p, k)),
        _ => {
            let r = int(0, w);
            let sp = Sphere { center: vp, radius: N::mk(r) };
            run1!(points, BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(sp), |k: &(P<D>, P<D>)| dsq(&k.0, &p) <= r * r)
        }
    }
    cover(9);
}

/// params: prop D number-type kind point lo hi; kind 7 sphere: lo hi rmax;
/// kind 20+k: point max min seed n w symkeys
#[no_mangle]
pub extern "C" fn h_filter() {
    start();
    let (kind, point) = (param(3), param(4) != 0);
    if kind >= 20 {
        let (mx, mn, seed, n, w, sk) = (param(5), param(6), param(7), param(8), param(9), param(10));
        return match (param(1), param(2)) {
            (1, 0) => search::<i32, 1>(kind - 20, point, mx, mn, seed, n, w, sk),
            (2, 0) => search::<i32, 2>(kind - 20, point, mx, mn, seed, n, w, sk),
            (3, 0) => search::<i32, 3>(kind - 20, point, mx, mn, seed, n, w, sk),
            _ => search::<N64, 2>(kind - 20, point, mx, mn, seed, n, w, sk),
        };
    }
    let (lo, hi) = (param(5), param(6));
    if kind == 7 {
        let r = param(7);
        return match (param(1), param(2)) {
            (1, 0) => spheres::<i32, 1>(lo, hi, r),
            (2, 0) => spheres::<i32, 2>(lo, hi, r),
            (3, 0) => spheres::<i32, 3>(lo, hi, r),
            _ => spheres::<N64, 2>(lo, hi, r),
        };
    }
    match (param(1), param(2)) {
        (1, 0) => filters::<i32, 1>(kind, point, lo, hi),
        (2, 0) => filters::<i32, 2>(kind, point, lo, hi),
        (3, 0) => filters::<i32, 3>(kind, point, lo, hi),
        (1, 1) => filters::<i64, 1>(kind, point, lo, hi),
        (2, 1) => filters::<i64, 2>(kind, point, lo, hi),
        (_, 1) => filters::<i64, 3>(kind, point, lo, hi),
        _ => filters::<N64, 2>(kind, point, lo, hi),
    }
}

// ------------------------------------------------------------------ C20

/// Where the segment (0 <= t <= 1) or ray (0 <= t) `o + t d` meets the box,
/// with exact rational arithmetic: (meets the closed box, must be reported).
fn exact<const D: usize>(o: &P<D>, d: &P<D>, b: &(P<D>, P<D>), ray: bool) -> (bool, bool) {
    // entry and exit of each dimension as fractions with positive denominators
    let mut closed = true;
    let mut open = true;
    let mut moving = 0usize;
    let mut num = [[0; 2]; D];
    let mut den = [0; D];
    let mut flat = [false; D];
    for i in 0..D {
        let (x, y) = (b.0[i] - o[i], b.1[i] - o[i]);
        flat[i] = b.0[i] == b.1[i];
        if d[i] == 0 {
            // stays where it is
            closed = closed & (x <= 0) & (y >= 0);
            open = open & (((x < 0) & (y > 0)) | (flat[i] & (x == 0)));
        } else {
            moving += 1;
            if d[i] > 0 {
                num[i] = [x, y];
                den[i] = d[i];
            } else {
                num[i] = [0 - y, 0 - x];
                den[i] = 0 - d[i];
            }
            // 0 <= exit, entry <= 1
            closed = closed & (num[i][1] >= 0);
            open = open & ((num[i][1] > 0) | (flat[i] & (num[i][1] == 0)));
            if !ray {
                closed = closed & (num[i][0] <= den[i]);
                open = open & ((num[i][0] < den[i]) | (flat[i] & (num[i][0] == den[i])));
            }
        }
    }
    if moving > 0 {
        // the last entry and the first exit, each of them in some dimension
        let (mut n, mut x) = (choice(moving), choice(moving));
        let (mut l, mut f) = (D, D);
        for i in 0..D {
            if den[i] != 0 {
                if n == 0 {
                    l = i;
                }
                if x == 0 {
                    f = i;
                }
                n = n.wrapping_sub(1);
                x = x.wrapping_sub(1);
            }
        }
        for i in 0..D {
            if den[i] != 0 {
                assume(num[i][0] * den[l] <= num[l][0] * den[i]);
                assume(num[f][1] * den[i] <= num[i][1] * den[f]);
            }
        }
        if l != f {
            let (a, b) = (num[l][0] * den[f], num[f][1] * den[l]);
            closed = closed & (a <= b);
            open = open & (a < b);
        }
    }
    (closed, if moving <= 1 { closed } else { open })
}
fn rays<N: Num + Into<f64>, const D: usize>(ray: bool, part: i64, w: i64, dm: i64, dir: i64) {
    let o = any::<D>(0 - w, w);
    // one path per direction; origins and boxes are arbitrary
    let mut d = [0; D];
    let mut code = dir - 1;
    for i in 0..D {
        let n = 2 * dm + 1;
        d[i] = if dir > 0 { code % n } else { choice(n as usize) as i64 } - dm;
        code /= n;
        if part >= 10 {
            d[i] *= part;
        }
    }
    let b = any_box::<D>(0 - w, w);
    let (vo, bb) = (v::<N, D>(&o), bx::<N, D>(&b));
    let hit = |bb: &SAABB<N, D>| {
        if ray {
            let r = Ray { origin: vo, n: v::<N, D>(&d) };
            let h = r.intersects(bb);
            ck(c(20), h == Intersects::<Ray<N, D>>::intersects(bb, &r), "ray and box disagree");
            h
        } else {
            let mut e = [0; D];
            for i in 0..D {
                e[i] = o[i] + d[i];
            }
            let mut ve = v::<N, D>(&e);
            for i in 0..D {
                ve[i] = N::mk(o[i]) + N::mk(d[i]);
            }
            Intersects::<SAABB<N, D>>::intersects(&Line(vo, ve), bb)
        }
    };
    if part == 1 {
        let r = hit(&bb);
        cover(74 + r as u64);
        // moving one face outwards at a time reaches every larger box
        let mut a = b;
        let f = choice(2 * D);
        let x = int(0 - w, w);
        if f < D {
            assume(x <= b.0[f]);
            a.0[f] = x;
        } else {
            assume(x >= b.1[f - D]);
            a.1[f - D] = x;
        }
        ck(c(20), !r | hit(&bx(&a)), "a box is reported but a larger box is not");
    } else {
        let (closed, must) = exact(&o, &d, &b, ray);
        let r = hit(&bb);
        cover(74 + r as u64);
        ck(c(20), r | !must, "a box that is passed through is missed");
        ck(c(20), closed | !r, "a box that is not touched is reported");
    }
    cover(9);
}
/// A tree of boxes searched along any segment or ray.
fn ray_search<const D: usize>(ray: bool, mx: i64, mn: i64, seed: i64, n: i64, w: i64, dm: i64) {
    let ks = keys::<D>(seed, n, w, w / 2);
    let o = any::<D>(0 - w, w);
    let mut d = [0; D];
    for i in 0..D {
        d[i] = choice(2 * dm as usize + 1) as i64 - dm;
    }
    let t = boxed::<i32, D>(mx, mn, &ks);
    let vo = v::<i32, D>(&o);
    let mut e = [0; D];
    for i in 0..D {
        e[i] = o[i] + d[i];
    }
    let mut seen = 0u64;
    let mut see = |i: i64| {
        ck(c(20), seen >> i & 1 == 0, "a search yields an entry twice");
        seen |= 1 << i;
    };
    match ray {
        true => {
            for (_, i) in t.filter_iter(IntersectsFilter::new(Ray { origin: vo, n: v::<i32, D>(&d) })) {
                see(*i);
            }
        }
        _ => {
            let mut ve = v::<i32, D>(&e);
            for i in 0..D {
                ve[i] = o[i] as i32 + d[i] as i32;
            }
            for (_, i) in t.filter_iter(IntersectsFilter::new(Line(vo, ve))) {
                see(*i);
            }
        }
    }
    for (i, k) in ks.iter().enumerate() {
        let (closed, must) = exact(&o, &d, k, ray);
        let hit = seen >> i & 1 == 1;
        cover(74 + hit as u64);
        ck(c(20), hit | !must, "a search misses a box that is passed through");
        ck(c(20), closed | !hit, "a search yields a box that is not touched");
    }
    cover(9);
}

/// params: prop D number-type ray part w dmax direction (0: any); part 2: max min seed n w dmax
#[no_mangle]
pub extern "C" fn h_ray() {
    start();
    let (ray, part, w, dm) = (param(3) != 0, param(4), param(5), param(6));
    if part == 2 {
        let (mx, mn, seed, n, w, dm) = (param(5), param(6), param(7), param(8), param(9), param(10));
        return match param(1) {
            1 => ray_search::<1>(ray, mx, mn, seed, n, w, dm),
            2 => ray_search::<2>(ray, mx, mn, seed, n, w, dm),
            _ => ray_search::<3>(ray, mx, mn, seed, n, w, dm),
        };
    }
    match (param(1), param(2)) {
        (1, 0) => rays::<i32, 1>(ray, part, w, dm, param(7)),
        (2, 0) => rays::<i32, 2>(ray, part, w, dm, param(7)),
        (3, 0) => rays::<i32, 3>(ray, part, w, dm, param(7)),
        (1, _) => rays::<N64, 1>(ray, part, w, dm, param(7)),
        (2, _) => rays::<N64, 2>(ray, part, w, dm, param(7)),
        _ => rays::<N64, 3>(ray, part, w, dm, param(7)),
    }
}

// ------------------------------------------------------------------ C22

/// Matches every pair whose boxes meet.
#[derive(Clone)]
struct Meet;
impl<const D: usize> JoinFilter<SAABB<i32, D>, SAABB<i32, D>, SAABB<i32, D>, SVec<i32, D>> for Meet {
    fn test_bounds(&self, l: &SAABB<i32, D>, r: &SAABB<i32, D>) -> bool {
        Intersects::<SAABB<i32, D>>::intersects(l, r)
    }
    fn test_key(&self, l: &SAABB<i32, D>, r: &SVec<i32, D>) -> bool {
        Intersects::<SVec<i32, D>>::intersects(l, r)
    }
}
/// Matches pairs of near boxes: computes with the bounds it is shown.
#[derive(Clone)]
struct Near;
impl<const D: usize> JoinFilter<SAABB<i32, D>, SAABB<i32, D>, SAABB<i32, D>, SVec<i32, D>> for Near {
    fn test_bounds(&self, l: &SAABB<i32, D>, r: &SAABB<i32, D>) -> bool {
        l.sq_dist_to(r) <= n64(4.0)
    }
    fn test_key(&self, l: &SAABB<i32, D>, r: &SVec<i32, D>) -> bool {
        l.sq_dist_to(&r.bounds()) <= n64(4.0)
    }
}
impl<const D: usize> JoinFilter<SAABB<i32, D>, SAABB<i32, D>, SVec<i32, D>, SAABB<i32, D>> for Near {
    fn test_bounds(&self, l: &SAABB<i32, D>, r: &SAABB<i32, D>) -> bool {
        l.sq_dist_to(r) <= n64(4.0)
    }
    fn test_key(&self, l: &SVec<i32, D>, r: &SAABB<i32, D>) -> bool {
        r.sq_dist_to(&l.bounds()) <= n64(4.0)
    }
}
fn empties<const D: usize>(q: i64, mx: i64, mn: i64, was: i64) {
    const BIG: i64 = i32::MAX as i64;
    let ks = keys::<D>(5, was, 40, 6);
    let mut t = points::<i32, D>(mx, mn, &ks);
    let mut u = boxed::<i32, D>(mx, mn, &ks);
    for k in &ks {
        ck(c(22), t.remove(&v::<i32, D>(&k.0)).is_some(), "an entry is lost");
        ck(c(22), u.remove(&bx::<i32, D>(k)).is_some(), "an entry is lost");
    }
    ck(c(22), t.is_empty() && t.len() == 0 && u.is_empty() && u.len() == 0, "an emptied tree is not empty");
    let full = any_box::<D>(0 - BIG - 1, BIG);
    let p = full.0;
    let (vp, bb) = (v::<i32, D>(&p), bx::<i32, D>(&full));
    // shapes whose own size is representable
    let size = if q == 4 { 100 } else { BIG / 4 };
    let n = any::<D>(0 - size, size);
    let m = any::<D>(0 - size, size);
    let (vn, vm) = (v::<i32, D>(&n), v::<i32, D>(&m));
    let rad = int(0, BIG / 4) as i32;
    macro_rules! none {
        ($it:expr) => {{
            let mut it = $it;
            ck(c(22), it.next().is_none(), "a search of an empty tree yields an entry");
            ck(c(22), it.next().is_none(), "a search of an empty tree yields an entry");
        }};
    }
    type BI<S, const D: usize> = BoundedIntersectsFilter<SAABB<i32, D>, S>;
    type BC<S, const D: usize> = BoundedContainsFilter<SAABB<i32, D>, S>;
    match q {
        0 => {
            none!(t.iter());
            none!(t.iter_mut());
            none!(u.iter());
            none!(u.iter_mut());
            none!(t.filter_iter::<SVec<i32, D>, _>(NoFilter));
            none!(t.filter_iter_mut::<SVec<i32, D>, _>(NoFilter));
            ck(c(22), t.get(&vp).is_none() && t.get_mut(&vp).is_none(), "get finds an entry in an empty tree");
            ck(c(22), u.get(&bb).is_none() && u.get_mut(&bb).is_none(), "get finds an entry in an empty tree");
            ck(c(22), t.remove(&vp).is_none() && u.remove(&bb).is_none(), "remove finds an entry in an empty tree");
            ck(c(22), t.is_empty() && u.is_empty(), "an emptied tree is not empty");
            let (mut t2, mut u2) = (t.clone(), u.clone());
            ck(c(22), t2.is_empty() && u2.is_empty(), "the clone of an empty tree is not empty");
            none!(t2.iter());
            none!(u2.iter_mut());
            none!(t2.filter_iter_mut::<SVec<i32, D>, _>(NoFilter));
            // and it can be filled again
            ck(c(22), t2.insert_unique(vn, 1).is_none() && t2.len() == 1, "an emptied tree cannot be filled");
            ck(c(22), t2.get(&vn) == Some(&1), "an emptied tree cannot be filled");
            u2.insert(AABB { min: vn, max: vn }, 2);
            ck(c(22), u2.iter().count() == 1, "an emptied tree cannot be filled");
        }
        1 => {
            none!(t.filter_iter(IntersectsFilter::new(bb)));
            none!(u.filter_iter(IntersectsFilter::new(bb)));
            none!(u.filter_iter(IntersectsFilter::new(vp)));
            none!(t.filter_iter(ContainsFilter::new(bb)));
            none!(u.filter_iter_mut(ContainsFilter::new(bb)));
            none!(t.filter_iter_mut(BI::<_, D>::new_bounded(bb)));
            none!(u.filter_iter(BI::<_, D>::new_bounded(vp)));
            none!(t.filter_iter(BC::<_, D>::new_bounded(bb)));
            none!(u.filter_iter_mut(BC::<_, D>::new_bounded(bb)));
        }
        2 => {
            none!(t.filter_iter(BI::<_, D>::new_bounded(Sphere { center: vn, radius: rad })));
            none!(u.filter_iter(IntersectsFilter::new(Line(vn, vm))));
            none!(u.filter_iter_mut(BI::<_, D>::new_bounded(Line(vn, vm))));
            none!(u.filter_iter(IntersectsFilter::new(Ray { origin: vp, n: vm })));
            none!(u.filter_iter_mut(IntersectsFilter::new(Ray { origin: vp, n: vp })));
        }
        3 => {
            let e = || EuclideanDistanceRanking::<SVec<i32, D>, i32>::new(vp);
            none!(t.iter_asc_by(e()));
            none!(u.iter_asc_by(e()));
            none!(t.iter_asc_by_mut(e()));
            none!(u.iter_asc_by_mut(e()));
            ck(c(22), t.min_by(e()).is_none() && u.min_by(e()).is_none(), "min_by finds an entry in an empty tree");
            ck(c(22), t.min_by_mut(e()).is_none() && u.min_by_mut(e()).is_none(), "min_by finds an entry in an empty tree");
            none!(t.filter_iter_asc_by(Opt(vp)));
            none!(u.filter_iter_asc_by_mut(Opt(vp)));
            ck(c(22), u.filter_min_by(Opt(vp)).is_none() && t.filter_min_by_mut(Opt(vp)).is_none(), "filter_min_by finds an entry in an empty tree");
        }
        _ => {
            let mut a: RTree<SAABB<i32, D>, SVec<i32, D>, i64> = RTree::new(if D == 1 { config(2, 1) } else { config(4, 2) });
            a.insert(vn, 0);
            a.insert(vm, 1);
            a.insert(SVec([0; D]), 2);
            let mut b: RTree<SAABB<i32, D>, SAABB<i32, D>, i64> = RTree::new(if D == 1 { config(2, 1) } else { config(4, 2) });
            b.insert(AABB { min: vn, max: vn }, 0);
            b.insert(AABB { min: vm, max: vm }, 1);
            b.insert(AABB { min: SVec([0; D]), max: SVec([1; D]) }, 2);
            none!(u.join(&t, Meet));
            none!(u.join(&a, Meet));
            none!(b.join(&t, Meet));
            none!(u.join(&t, Near));
            none!(u.join(&a, Near));
            none!(b.join(&t, Near));
            none!(a.join(&u, Near));
            none!(t.join(&b, Near));
            let mut it = u.left_join(&t, Meet);
            ck(c(22), it.next().is_none(), "left_join of an empty left tree yields an entry");
            let mut it = u.left_join(&a, Near);
            ck(c(22), it.next().is_none(), "left_join of an empty left tree yields an entry");
            let mut seen = 0u32;
            for ((_, i), mut inner) in b.left_join(&t, Near) {
                ck(c(22), seen >> *i & 1 == 0, "left_join with an empty right tree repeats an entry");
                seen |= 1 << *i;
                none!(&mut inner);
            }
            ck(c(22), seen == 7, "left_join with an empty right tree misses an entry");
            seen = 0;
            for ((_, i), mut inner) in a.left_join(&u, Near) {
                seen |= 1 << *i;
                none!(&mut inner);
            }
            ck(c(22), seen == 7, "left_join with an empty right tree misses an entry");
        }
    }
    cover(9);
}
/// Distances as optional metrics.
struct Opt<const D: usize>(SVec<i32, D>);
impl<const D: usize> Ranking<SAABB<i32, D>, SVec<i32, D>> for Opt<D> {
    type Metric = Option<i32>;
    fn bounds_min(&self, b: &SAABB<i32, D>) -> Option<i32> {
        Some(b.dist_sq(&self.0))
    }
    fn rank_key(&self, k: &SVec<i32, D>) -> Option<i32> {
        Some(k.dist_sq(&self.0))
    }
}
impl<const D: usize> Ranking<SAABB<i32, D>, SAABB<i32, D>> for Opt<D> {
    type Metric = Option<i32>;
    fn bounds_min(&self, b: &SAABB<i32, D>) -> Option<i32> {
        Some(b.dist_sq(&self.0))
    }
    fn rank_key(&self, k: &SAABB<i32, D>) -> Option<i32> {
        Some(k.dist_sq(&self.0))
    }
}

/// params: prop D query max min entries-before
#[no_mangle]
pub extern "C" fn h_empty() {
    start();
    let (q, mx, mn, was) = (param(2), param(3), param(4), param(5));
    match param(1) {
        1 => empties::<1>(q, mx, mn, was),
        2 => empties::<2>(q, mx, mn, was),
        _ => empties::<3>(q, mx, mn, was),
    }
}
