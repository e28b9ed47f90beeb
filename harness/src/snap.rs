//! Observing a tree through its public query interface.
use crate::hb::*;
use crate::sym::*;
use rusty_rtree::filter::SpatialFilter;
use rusty_rtree::*;

pub type Tree<const D: usize, V> = RTree<HB<D>, HK<D>, V>;

pub const NN: usize = 64;

#[derive(Clone, Copy)]
pub struct Ev {
    pub bid: u64,
    pub occ: u32,
}
/// Recording state of `RecF`.
pub struct Rec {
    pub on: bool,
    /// bounds events of the reference run
    pub nb: usize,
    pub ev: [Ev; NN],
    pub seq: [Ev; NN],
    pub nseq: usize,
    /// which reference events were seen in this run
    pub seen: u64,
    pub seen_keys: u64,
    pub reject: usize,
    pub first: bool,
    pub strange: bool,
}
pub static REC: Cell0<Rec> = Cell0::new(Rec {
    on: false,
    nb: 0,
    ev: [Ev { bid: 0, occ: 0 }; NN],
    seq: [Ev { bid: 0, occ: 0 }; NN],
    nseq: 0,
    seen: 0,
    seen_keys: 0,
    reject: 99,
    first: true,
    strange: false,
});

/// Accepts everything except the `reject`-th bounds of the reference run, and
/// records what it is shown.
pub struct RecF<'a, const D: usize> {
    pub store: &'a std::cell::RefCell<Vec<HB<D>>>,
}
impl<'a, const D: usize> SpatialFilter<HB<D>, HQ<D>> for RecF<'a, D> {
    fn test_bounds(&self, b: &HB<D>) -> bool {
        let r = REC.g();
        let mut occ = 0;
        for i in 0..r.nseq {
            if r.seq[i].bid == b.bid {
                occ += 1;
            }
        }
        let e = Ev { bid: b.bid, occ };
        check(r.nseq < NN, "harness: too many nodes");
        r.seq[r.nseq] = e;
        r.nseq += 1;
        if r.first {
            r.ev[r.nb] = e;
            r.nb += 1;
            self.store.borrow_mut().push(b.raw_copy());
            return true;
        }
        for i in 0..r.nb {
            if r.ev[i].bid == e.bid && r.ev[i].occ == e.occ {
                r.seen |= 1 << i;
                return i != r.reject;
            }
        }
        r.strange = true;
        true
    }
    fn test_key(&self, k: &HQ<D>) -> bool {
        REC.g().seen_keys |= 1 << k.id;
        true
    }
}

pub struct Node<const D: usize> {
    pub b: HB<D>,
    /// ids of the keys below (bit set), indices of the nodes below
    pub keys: u64,
    pub below: u64,
    pub bid: u64,
    pub occ: u32,
}
pub struct Snap<const D: usize> {
    pub nodes: Vec<Node<D>>,
    /// key ids in iteration order
    pub order: Vec<u32>,
    pub all: u64,
}

/// Finds, for every bounds object a search is shown, the keys and bounds that
/// are only reached through it, by rejecting each in turn.
/// Key ids must be distinct in the tree.
pub fn snap<const D: usize, V: HV>(t: &Tree<D, V>) -> Snap<D> {
    let store = std::cell::RefCell::new(Vec::new());
    let r = REC.g();
    r.nb = 0;
    r.first = true;
    r.nseq = 0;
    r.seen_keys = 0;
    let mut order = Vec::new();
    for (k, _) in t.filter_iter(RecF::<D> { store: &store }) {
        order.push(k.q.id);
    }
    let mut all = 0;
    for id in &order {
        ck(c(1) | c(7), all >> *id & 1 == 0, "an entry is visited twice");
        all |= 1 << *id;
    }
    let r = REC.g();
    r.first = false;
    r.strange = false;
    let n = r.nb;
    let full = if n == 64 { !0 } else { (1u64 << n) - 1 };
    let bs = store.into_inner();
    let mut nodes = Vec::new();
    let none = std::cell::RefCell::new(Vec::new());
    for (i, b) in bs.into_iter().enumerate() {
        let r = REC.g();
        r.nseq = 0;
        r.seen = 0;
        r.seen_keys = 0;
        r.reject = i;
        let mut got = 0;
        for (k, _) in t.filter_iter(RecF::<D> { store: &none }) {
            ck(c(1) | c(7), got >> k.q.id & 1 == 0, "an entry is visited twice");
            got |= 1 << k.q.id;
        }
        let r = REC.g();
        ck(c(7), r.seen_keys == got, "an accepted key is not yielded");
        let e = r.ev[i];
        nodes.push(Node { b, keys: all & !got, below: full & !r.seen, bid: e.bid, occ: e.occ });
    }
    ck(c(7), !REC.g().strange, "a search over the unchanged tree is shown different bounds");
    Snap { nodes, order, all }
}

impl<const D: usize> Snap<D> {
    /// deepest node above node i (usize::MAX if none)
    pub fn parent(&self, i: usize) -> usize {
        let mut best = usize::MAX;
        for j in 0..self.nodes.len() {
            if self.nodes[j].below >> i & 1 == 1 && (best == usize::MAX || self.nodes[best].below >> j & 1 == 1) {
                best = j;
            }
        }
        best
    }
    pub fn depth(&self, i: usize) -> usize {
        let mut d = 0;
        for j in 0..self.nodes.len() {
            if self.nodes[j].below >> i & 1 == 1 {
                d += 1;
            }
        }
        d
    }
    /// number of nodes on the way to a leaf
    pub fn height(&self) -> usize {
        let mut h = 0;
        for i in 0..self.nodes.len() {
            h = h.max(self.depth(i));
        }
        h
    }
    /// C06: balance and child counts.
    pub fn check_shape(&self, max: usize, min: usize) {
        let n = self.nodes.len();
        if self.order.is_empty() {
            ck(c(6), n <= 1, "an empty tree has inner nodes");
            return;
        }
        // The root may or may not be shown to the filter.
        let mut tops = 0;
        for i in 0..n {
            if self.depth(i) == 0 {
                tops += 1;
            }
        }
        let virtual_root = tops != 1;
        let mut leaf_depth = usize::MAX;
        let mut keyless_root = 0;
        for i in 0..n {
            let mut kids = 0;
            let mut own = self.nodes[i].keys;
            for j in 0..n {
                if self.parent(j) == i {
                    kids += 1;
                    own &= !self.nodes[j].keys;
                }
            }
            let keys = own.count_ones() as usize;
            ck(c(6), kids == 0 || keys == 0, "a node holds both entries and nodes");
            let is_root = self.depth(i) == 0 && !virtual_root;
            ck(c(6), kids + keys <= max, "a node has more than max_children children");
            if is_root {
                ck(c(6), kids != 1, "the root is an inner node with a single child");
                ck(c(6), kids + keys >= 1, "the root of a non-empty tree has no children");
            } else {
                ck(c(6), kids + keys >= min, "a node has fewer than min_children children");
            }
            if kids == 0 {
                let d = self.depth(i);
                ck(c(6), leaf_depth == usize::MAX || leaf_depth == d, "leaves at different depths");
                leaf_depth = d;
            }
            if self.depth(i) == 0 {
                keyless_root |= self.nodes[i].keys;
            }
        }
        if virtual_root {
            if tops == 0 {
                ck(c(6), self.order.len() <= max, "a node has more than max_children children");
            } else {
                ck(c(6), tops <= max, "a node has more than max_children children");
                ck(c(6), keyless_root == self.all, "entries outside every node");
            }
        }
    }
    /// C05: bounds are the union of the keys below.  `q(id)` gives the key.
    pub fn check_bounds<'k>(&self, q: impl Fn(u32) -> &'k HQ<D>) {
        for n in &self.nodes {
            let mut u = HB::<D>::raw_empty();
            for id in 0..NKEY as u32 {
                if n.keys >> id & 1 == 1 {
                    u = HB::raw_union(&u, &q(id).hb());
                }
            }
            if n.keys != 0 {
                if g().sloppy {
                    // inexact unions: the bounds have to cover the keys
                    ck(c(5), n.b.raw_contains(&u), "bounds shown to a filter do not cover the keys below");
                    continue;
                }
                ck(c(5), n.b.same(&u), "bounds shown to a filter differ from the union of the keys below");
                cover(70);
            }
        }
    }
}
