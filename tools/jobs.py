"""What each check explores."""
_TREE = ("Config (max,min) from (2,1) to (10,5), 1D and 2D keys, up to 48 entries. With 'any boxes' all coordinates (0..7 or wider) and key "
         "identities are symbolic (up to 6-9 entries); on taller trees the boxes are fixed and which key the call names is symbolic. "
         "'Any monotone volumes' leaves every volume to the solver subject to monotonicity. At most 4 symbolic calls in a row.")
_QUERY = ("Every answer of the filter/ranking is a symbolic bit/number, constrained only by the documented contract, on trees of 0 to 9 entries; on "
          "trees of up to 40 entries and 5 levels one entry (any) and one pair of bounds have arbitrary answers and the others a fixed pattern. "
          "Ranks 0..7.")
_JOIN = ("Every set of matching pairs is symbolic up to about 12 pairs of entries; on larger trees (up to 24 entries against 22, 5 levels against 4) "
         "every n-th pair or any one pair is symbolic and the others fixed. Bounds beyond need are accepted arbitrarily (symbolic) or by pattern.")
_OUT_TREE = ("Longer histories, more entries than listed, other configs, symbolic geometry on tall trees, three or more dimensions (sources are "
             "generic in D; dimension 3 is covered only in C18-C21), allocation failure.")
_OUT_QUERY = "Larger trees; arbitrary answers for all entries of a tall tree at once; filters that break the contract."
BOUNDS = {
    "C01": _TREE, "C02": _TREE, "C03": _TREE, "C04": _TREE, "C05": _TREE, "C06": _TREE,
    "C07": _QUERY, "C08": _QUERY + " Values are symbolic numbers; schedules of next/write/abandon of up to the whole tree.", "C09": _QUERY,
    "C10": _QUERY + " A rank may be absent.",
    "C11": _JOIN, "C12": _JOIN,
    "C13": "All schedules of 4 to 8 steps (thorough 10) of outer next, outer drop, inner next and inner drop, up to 4 inner iterators at once, then everything drained; trees of up to 24 and 22 entries.",
    "C14": _TREE + " Up to three symbolic calls on each of original and clone, in either order, either dropped first.",
    "C15": _TREE + " Every key and value owns a counted token and a heap block.",
    "C16": "Key/value layouts: zero-sized, 1, 8 and 72 bytes, 64- and 128-aligned, boxed and Vec; every sequence of 1-3 of the 16 public calls with any arguments, on trees of 0-30 entries.",
    "C17": _TREE + " The panic happens in any one callback of the call (the number of the callback is symbolic); then one more call of each kind.",
    "C18": "i32 and i64 coordinates in their full width or in the stated range (arithmetic and volumes), N64 coordinates that are whole numbers up to the stated size; 1-4 dimensions.",
    "C19": "Box, point, sphere and line filters against any key and any enclosing box: i32 and i64 coordinates of full width or the stated range; N64 whole numbers; 1-3 dimensions.",
    "C20": "Origins and boxes symbolic within +-100 (1D), +-50/20 (2D, 3D); directions and segments of every integer direction up to 3 (1 in 3D).",
    "C21": "Coordinates within +-1000 (points) and +-100/20 (boxes), 1-3 dimensions; ordering of results on trees.",
    "C22": "Trees never filled or emptied of up to 9 entries (3 levels) by any route, every query, any query coordinates, 1-3 dimensions, integer and float.",
    "C23": _TREE, "C24": _TREE, "C25": _JOIN, "C26": _JOIN, "C27": _QUERY,
    "C28": "1D keys, geometric volumes. Keys of any geometry on a full leaf (max 2 or 3); else fixed keys, each put in either of two places, and one key of any geometry; or, on trees of up to 30 entries with max up to 16 (thorough 32), fixed keys in two places or side by side and a new key of any geometry anywhere.",
    "C29": _TREE,
}
OUTSIDE = {
    "C01": _OUT_TREE, "C02": _OUT_TREE, "C03": _OUT_TREE, "C04": _OUT_TREE, "C05": _OUT_TREE, "C06": _OUT_TREE,
    "C07": _OUT_QUERY, "C08": _OUT_QUERY, "C09": _OUT_QUERY + " Ranks that are not totally ordered.", "C10": _OUT_QUERY,
    "C11": "Larger trees; all pairs arbitrary on large trees; filters that break the contract.",
    "C12": "Larger trees; all pairs arbitrary on large trees; filters that break the contract.",
    "C13": "Longer schedules before the final draining; threads (the iterators are not Sync in a way that could be shared without locks).",
    "C14": _OUT_TREE, "C15": _OUT_TREE + " mem::forget of an iterator.",
    "C16": "Aliasing models (N02); 32-bit targets.", "C17": _OUT_TREE + " Two panics at once (abort); panics in Drop.",
    "C18": "Coordinate types whose arithmetic overflows; NaN; bounds with min > max.",
    "C19": "Float values outside the exact fragment (coordinates that need rounding); NaN and infinities.",
    "C20": "Rays that only touch a corner or an edge (left unspecified); directions beyond the list; rounding of large coordinates.",
    "C21": "Coordinates whose squared differences leave the exact float range.",
    "C22": "Four or more dimensions.", "C23": _OUT_TREE, "C24": _OUT_TREE + " Full leaves that split into the old entries and the new one alone.",
    "C25": "Larger trees.", "C26": "Larger trees.", "C27": _OUT_QUERY,
    "C28": "Splits while removing (re-insertion); more than one dimension; groups of exactly min_children; groups that are closer than they are wide.",
    "C29": _OUT_TREE,
}
ASSUME = ["z3's verdicts (thorough: a sample of the queries is repeated with cvc5)",
          "rustc's lowering of the crate to LLVM IR (release profile, overflow checks on) and the executor's semantics of it, cross-checked natively on sampled paths",
          "the harness's list models, contracts of filters and rankings as documented",
          "volume, union and key comparison of the harness's key types are correct where a property quantifies over them"]
N = {("C%02d" % i): i for i in range(1, 30)}
OPS = {1: "insert", 2: "insert_unique", 3: "remove(any key)", 4: "get", 5: "get(owned)", 6: "get_mut", 7: "get_mut(owned)",
       9: "remove(stored key)"}
GEOS = {0: "any boxes", 1: "fixed separate boxes", 2: "fixed overlapping boxes"}
VOLS = {0: "volumes by build order", 1: "any monotone volumes", 2: "geometric volumes", 3: "any monotone volumes"}


def J(i, h, *p, need=(), what=""):
    return {"id": i, "h": h, "p": list(p), "need": list(need), "what": what}


def hist(prop, mx, mn, n, script, seed=0, geo=0, rm=0, var=0, vol=0, opseed=0, uniq=0, need=()):
    ops = []
    s = script
    while s:
        ops.append(OPS[s % 10])
        s //= 10
    d = 2 if var % 10 == 1 else 1
    what = "max=%d min=%d, %d entries (build order %d%s), %s in %dD%s%s, then %s; %s" % (
        mx, mn, n, seed, ", some removed" if rm else "", GEOS[geo], d, ", owning values" if var % 10 == 2 else "",
        ", inexact unions" if var >= 10 else "", ", ".join(ops) or "nothing", VOLS[vol])
    name = "m%d.%d-n%d-%s-s%d" % (mx, mn, n, script, seed)
    for k, v, z in (("g", geo, 0), ("r", rm, 0), ("v", var, 0), ("V", vol, 0), ("o", opseed, 0), ("u", uniq, 0)):
        if v != z:
            name += "-%s%d" % (k, v)
    return J(name, "h_hist", N[prop], mx, mn, n, seed, geo, rm, var, vol, script, opseed, uniq, need=[9] + list(need), what=what)


# tall trees with fixed boxes: (max, min, entries, build orders)
TALL = [(8, 4, 40, 8), (8, 4, 36, 12), (4, 2, 40, 5), (4, 2, 36, 12), (7, 3, 36, 9), (10, 5, 40, 8), (6, 3, 30, 5), (6, 3, 32, 5),
        (6, 3, 30, 12), (6, 3, 38, 8), (2, 1, 16, 5), (2, 1, 24, 12), (3, 1, 28, 9), (4, 1, 36, 8), (5, 1, 40, 5), (5, 2, 34, 9), (6, 2, 40, 12),
        (9, 4, 40, 5), (12, 6, 40, 9), (6, 1, 40, 9), (16, 8, 46, 8), (32, 16, 46, 5), (20, 5, 44, 9), (40, 20, 44, 5)]


def hist_jobs(prop, tier):
    T = tier == "thorough"
    H = lambda *a, **k: hist(prop, *a, **k)
    js = []
    if prop in ("C01", "C04", "C05", "C06"):
        nd = [5]
        for k, (mx, mn, n, s) in enumerate(TALL):
            js.append(H(mx, mn, n, 9, seed=s, geo=1 + k % 2, vol=2, need=nd))
        js += [H(5, 2, 30, 99, seed=8, geo=2, vol=2, need=nd), H(4, 1, 24, 99, seed=8, geo=2, vol=2, need=nd),
               H(6, 3, 30, 99, seed=12, geo=1, vol=2, need=nd), H(4, 2, 28, 99, seed=9, geo=1, vol=2, need=nd),
               H(4, 2, 10, 9999, seed=8, geo=1, vol=2, need=nd), H(2, 1, 7, 999999, seed=4, geo=1, vol=2, need=nd)]
        if T:
            for mx, mn in ((2, 1), (3, 1), (4, 1), (4, 2), (5, 1), (5, 2), (6, 2), (6, 3), (7, 3), (8, 4), (9, 4), (10, 5), (14, 7)):
                for n in (18, 26, 33, 40):
                    for s in (5, 8, 9, 12):
                        if n <= 26 or mx > 2:
                            js.append(H(mx, mn, n, 9, seed=s, geo=1 + (n + s) % 2, vol=2, need=nd))
            js += [H(mx, mn, n, 99, seed=s, geo=1 + s % 2, vol=2, need=nd) for mx, mn, n in ((6, 3, 36), (4, 2, 32), (8, 4, 40), (5, 2, 36), (3, 1, 22))
                   for s in (5, 8, 9, 12)]
            js += [H(4, 2, 24, 999, seed=9, geo=1, vol=2, need=nd), H(3, 1, 8, 99999, seed=5, geo=2, vol=2, need=nd),
                   H(2, 1, 8, 9999999, seed=4, geo=1, vol=2, need=nd), H(2, 1, 6, 191919, seed=4, geo=1, vol=2, need=nd)]
    if prop in ("C01", "C03", "C05", "C06"):
        # a key that may lie anywhere enters a tall or wide tree
        for k, (mx, mn, n, s) in enumerate(TALL):
            if mx == 2 and n > 16:
                continue
            big = mx < 5 and n > 28
            if prop != "C03":
                if not big or k % 2 == {"C01": 0, "C05": 1}.get(prop, k % 2) or T:
                    js.append(H(mx, mn, n, 1, seed=s, geo=1 + k % 2, vol=2, need=[1]))
                if (mx >= 8 and k % 2) or (T and not big):
                    js.append(H(mx, mn, n, 19, seed=s, geo=1, vol=2, need=[1, 5]))
            if not big and (prop == "C03" or k % 3 == 0) or T:
                js.append(H(mx, mn, n, 2, seed=s, geo=1 + k % 2, vol=2, need=[2, 3]))
            if T and mx >= 5:
                js.append(H(mx, mn, n, 91, seed=s, geo=1, vol=2, need=[1, 5]))
                js.append(H(mx, mn, n, 29, seed=s, geo=1, vol=2, need=[2, 3]))
    if prop in ("C01", "C05", "C06"):
        # insertion: descent choices and splits
        js += [H(2, 1, 0, 111, vol=1), H(2, 1, 3, 1, vol=1), H(2, 1, 4, 1, seed=2, vol=1), H(2, 1, 5, 1, seed=2, vol=1),
               H(3, 1, 5, 1, vol=1), H(3, 1, 3, 1, vol=1, var=1), H(2, 1, 4, 1, seed=3, vol=1, var=1)]
        # splits of larger nodes
        js += [H(4, 2, 4, 1, geo=1, vol=2), H(4, 2, 8, 1, seed=5, geo=1, vol=2), H(5, 2, 5, 1, seed=5, geo=1, vol=2),
               H(6, 3, 12, 1, seed=5, geo=1, vol=2), H(8, 4, 8, 1, seed=7, geo=1, vol=2), H(6, 3, 6, 1, seed=3, vol=0),
               H(4, 2, 16, 1, seed=9, geo=1, vol=2), H(4, 1, 14, 1, seed=8, geo=1, vol=2), H(6, 2, 18, 1, seed=11, geo=1, vol=2)]
        # removal: underflow, re-insertion, collapse
        js += [H(2, 1, 5, 99, seed=2), H(2, 1, 6, 1999, seed=2), H(2, 1, 5, 199999, seed=2), H(4, 2, 8, 99, seed=5),
               H(4, 2, 12, 9, seed=9), H(4, 2, 16, 9, seed=5), H(6, 3, 13, 9, seed=8), H(3, 1, 7, 99, seed=5), H(5, 2, 11, 9, seed=7),
               H(2, 1, 7, 9, seed=4, var=10), H(4, 2, 7, 19, seed=3, vol=0), H(4, 2, 6, 91, seed=5, vol=0)]
        js += [H(2, 1, 4, 3, var=1), H(2, 1, 3, 19, vol=1), H(2, 1, 3, 91, vol=1)]
        # insert_unique: found in one of several children, or nowhere
        js += [H(2, 1, 3, 2, vol=1, need=[2, 3]), H(2, 1, 5, 2, seed=2, vol=1, need=[2, 3]), H(3, 1, 5, 2, seed=5, vol=1, need=[2, 3]),
               H(4, 2, 9, 2, seed=5, geo=1, vol=2, need=[2, 3])]
        if T:
            js += [H(2, 1, 6, 1, seed=s, vol=1) for s in (0, 1, 2, 5)]
            js += [H(3, 1, 6, 1, seed=s, vol=1) for s in (0, 2, 5)]
            js += [H(4, 2, n, 1, seed=s, geo=1, vol=2) for n in (12, 20, 24) for s in (5, 8, 9, 12)]
            js += [H(8, 4, n, 1, seed=s, geo=1, vol=2) for n in (16, 20) for s in (0, 5, 8, 9)]
            js += [H(10, 5, 10, 1, seed=s, geo=1, vol=2) for s in (0, 5, 8)]
            js += [H(4, 2, 9, 999, seed=s) for s in (5, 8)] + [H(4, 2, 20, 9, seed=s) for s in (5, 8, 12)]
            js += [H(2, 1, 7, 99, seed=s) for s in (0, 2, 4, 8)] + [H(6, 3, 18, 9, seed=s) for s in (5, 8)]
            js += [H(2, 1, 4, 131, vol=1), H(2, 1, 4, 91, vol=1), H(2, 1, 4, 19, vol=1), H(2, 1, 5, 913, vol=0, seed=2)]
    if prop == "C02":
        for op in (4, 5, 6, 7):
            js += [H(2, 1, 5, op, need=[6, 7], seed=2), H(4, 2, 9, op, seed=5, need=[6, 7])]
        js += [H(2, 1, 4, 4, var=1, need=[6, 7]), H(2, 1, 3, 6, var=2, need=[6, 7]), H(3, 1, 7, 64, seed=8, need=[6, 7]),
               H(2, 1, 6, 6, seed=4, var=10, need=[6, 7]), H(2, 1, 7, 4, seed=2, rm=18, need=[6, 7]), H(2, 1, 4, 41, vol=1, need=[6, 7]),
               H(2, 1, 0, 4, need=[6]), H(6, 3, 14, 6, seed=8, need=[6, 7]), H(2, 1, 5, 49, seed=2, need=[6, 7])]
        for k, (mx, mn, n, s) in enumerate(TALL):
            js.append(H(mx, mn, n, 4 + k % 4, seed=s, geo=1 + k % 2, vol=2, need=[6, 7]))
        if T:
            js += [H(2, 1, 8, op, seed=s, need=[6, 7]) for op in (4, 6) for s in (0, 2, 4, 8)]
            js += [H(4, 2, 20, op, seed=s, need=[6, 7]) for op in (4, 6) for s in (5, 8, 12)]
            js += [H(2, 1, 6, 4, var=1, seed=s, need=[6, 7]) for s in (0, 2, 8)]
            js += [H(2, 1, 5, 411, vol=1, need=[6, 7]), H(2, 1, 6, 499, seed=2, need=[6, 7])]
    if prop == "C03":
        js += [H(2, 1, 0, 222, vol=1, uniq=1, need=[2, 3]), H(2, 1, 3, 2, vol=1, need=[2, 3]), H(2, 1, 4, 2, seed=2, vol=1, need=[2, 3]),
               H(2, 1, 5, 2, seed=2, vol=1, need=[2, 3]), H(3, 1, 5, 2, seed=5, vol=1, need=[2, 3]), H(2, 1, 3, 2, vol=1, var=1, need=[2, 3]),
               H(2, 1, 3, 2, vol=1, var=2, need=[2, 3]), H(2, 1, 4, 2, vol=1, var=10, need=[2, 3]),
               H(4, 2, 9, 2, seed=5, geo=1, vol=2, need=[2, 3]), H(6, 3, 12, 2, seed=8, geo=1, vol=2, need=[2, 3]),
               H(2, 1, 4, 2, seed=2, rm=2, vol=1, need=[2, 3]), H(4, 2, 8, 2, seed=3, vol=0, need=[2, 3]),
               H(4, 2, 16, 2, seed=9, geo=1, vol=2, need=[2, 3]), H(2, 1, 2, 22, vol=1, need=[2, 3]),
               H(2, 1, 3, 29, vol=1, need=[2, 3]), H(8, 4, 8, 2, seed=5, geo=1, vol=2, need=[2, 3])]
        if T:
            js += [H(2, 1, 0, 2222, vol=1, uniq=1, need=[2, 3]), H(2, 1, 6, 2, seed=2, vol=1, need=[2, 3]),
                   H(3, 1, 6, 2, seed=5, vol=1, need=[2, 3]), H(2, 1, 4, 22, vol=1, need=[2, 3]), H(2, 1, 4, 2, vol=1, var=1, need=[2, 3])]
            js += [H(4, 2, n, 2, seed=s, geo=1, vol=2, need=[2, 3]) for n in (12, 20) for s in (5, 8, 12)]
            js += [H(2, 1, 8, 2, seed=s, vol=0, need=[2, 3]) for s in (0, 2, 4)]
    if prop == "C04":
        js += [H(2, 1, 5, 3, seed=2, need=[4, 5]), H(4, 2, 8, 3, seed=5, need=[4, 5]), H(2, 1, 4, 3, var=1, need=[4, 5]),
               H(2, 1, 3, 3, var=2, need=[4, 5]), H(2, 1, 6, 3, seed=4, var=10, need=[4, 5]), H(2, 1, 4, 33, seed=2, need=[4, 5]),
               H(2, 1, 6, 99, seed=2, need=[5]), H(2, 1, 5, 9999, seed=2, need=[5]), H(4, 2, 12, 9, seed=9, need=[5]),
               H(4, 2, 16, 9, seed=5, need=[5]), H(6, 3, 13, 9, seed=8, need=[5]), H(3, 1, 7, 99, seed=5, need=[5]),
               H(5, 2, 11, 9, seed=7, need=[5]), H(2, 1, 7, 3, seed=8, rm=5, need=[4, 5]),
               H(2, 1, 3, 31, vol=1, need=[4, 5]), H(8, 4, 17, 9, seed=5, need=[5]), H(4, 2, 8, 9, seed=3, need=[5]), H(2, 1, 0, 3, need=[4])]
        if T:
            js += [H(2, 1, 6, 999, seed=2, need=[5]), H(2, 1, 5, 99999, seed=2, need=[5]), H(4, 2, 9, 99, seed=8, need=[5])]
            js += [H(2, 1, 6, 33, seed=s, need=[4, 5]) for s in (0, 2, 4, 8)] + [H(4, 2, 9, 33, seed=5, need=[4, 5])]
            js += [H(4, 2, n, 9, seed=s, need=[5]) for n in (18, 20) for s in (5, 8, 9, 12)]
            js += [H(2, 1, 7, 999, seed=2, need=[5]), H(2, 1, 4, 31, vol=1, need=[4, 5]), H(6, 3, 20, 9, seed=8, need=[5]),
                   H(4, 2, 11, 99, seed=8, need=[5])]
    return js



FEW = [(4, 2, 40, 8), (2, 1, 16, 5), (8, 4, 40, 9), (3, 1, 24, 5), (6, 3, 30, 12), (4, 1, 32, 8), (2, 1, 18, 9), (5, 2, 34, 12), (4, 2, 30, 5),
       (6, 2, 28, 9), (3, 1, 20, 12), (10, 5, 40, 5), (4, 2, 24, 8), (7, 3, 36, 8), (5, 1, 33, 9), (16, 8, 40, 5), (32, 12, 44, 8), (12, 4, 40, 12)]
MODES = {0: "filter_iter by any contract-honouring filter", 10: "iter_mut", 11: "filter_iter_mut", 12: "iter_asc_by_mut",
         13: "filter_iter_asc_by_mut", 14: "min_by_mut", 15: "filter_min_by_mut", 20: "iter_asc_by any ranking",
         21: "filter_iter_asc_by any optional ranking", 22: "min_by", 23: "filter_min_by"}


def query(prop, mode, mx, mn, n, seed=0, geo=1, rm=0, var=0, need=(), few=0):
    name = "q%d-m%d.%d-n%d-s%d-g%d" % (mode, mx, mn, n, seed, geo)
    if rm:
        name += "-r%d" % rm
    if var:
        name += "-v%d" % var
    if few:
        name += "-f%d" % few
    what = "%s on a tree of %d entries (max=%d min=%d, build order %d, %s boxes%s)" % (
        MODES[mode], n, mx, mn, seed, "overlapping" if geo == 2 else "separate", ", some removed" if rm else "")
    if few:
        what += "; answers arbitrary for any one entry%s, fixed for the others" % (" and one pair of bounds beyond need" if mode in (0, 11) else "")
    return J(name, "h_query", N[prop], mx, mn, n, seed, geo, rm, mode, var, few, need=[9] + list(need), what=what)


def query_jobs(prop, tier):
    T = tier == "thorough"
    Q = lambda *a, **k: query(prop, *a, **k)
    js = []
    # tall and wide trees with the answers of one entry arbitrary
    modes = {"C07": (0,), "C08": (10, 11, 12, 13, 14, 15), "C09": (20, 22), "C10": (21, 23)}.get(prop, ())
    for k, mode in enumerate(modes):
        for i, (mx, mn, n, s) in enumerate(FEW if T else FEW[k % 3::3] if len(modes) > 3 else FEW[k % 2::len(modes)]):
            for f in ((2, 5, 40) if T else ((2, 40, 5)[i % 3],)):
                if mode in (0, 10, 11) or n <= 34:
                    js.append(Q(mode, mx, mn, n, s, geo=1 + (i + k) % 2, few=f, need=[27] if mode in (20, 21) else []))
    if prop == "C07":
        js += [Q(0, 2, 1, 5, 2, need=[20, 22, 23]), Q(0, 2, 1, 5, 5, geo=2, need=[20, 22, 23]), Q(0, 4, 2, 8, 5, need=[20, 22, 23]),
               Q(0, 2, 1, 6, 2, rm=2, need=[20, 22, 23]), Q(0, 2, 1, 4, 3, need=[20, 22, 23]), Q(0, 2, 1, 8, 4, need=[20, 22, 23]),
               Q(0, 2, 1, 7, 8, geo=2, need=[20, 22, 23]), Q(0, 2, 1, 1, 0, need=[20, 22, 23]), Q(0, 2, 1, 0, 0), Q(0, 4, 2, 4, 0, need=[22, 23]),
               Q(0, 3, 1, 9, 9, geo=2, rm=17, need=[20, 22, 23]), Q(0, 5, 2, 11, 5, geo=2, need=[20, 22, 23]), Q(0, 6, 3, 7, 8, need=[20, 22, 23]),
               Q(0, 4, 2, 10, 5, geo=1, var=1, need=[20, 22, 23]), Q(0, 2, 1, 9, 1, need=[20, 22, 23])]
        if T:
            js += [Q(0, 2, 1, n, s, geo=g, need=[20, 22, 23]) for n in (10, 12) for s in (0, 5, 8) for g in (1, 2)]
            js += [Q(0, 4, 2, 14, s, geo=g, need=[20, 22, 23]) for s in (0, 5, 8) for g in (1, 2)]
    if prop == "C08":
        for k in (10, 11):
            js += [Q(k, 2, 1, 5, 2, need=[24]), Q(k, 4, 2, 9, 5, geo=2, need=[24]), Q(k, 2, 1, 7, 4, rm=5, need=[24]), Q(k, 2, 1, 4, 3, var=1, need=[24]),
                   Q(k, 2, 1, 0, 0), Q(k, 3, 1, 1, 0, need=[24])]
        js += [Q(11, 2, 1, 8, 4, need=[24]), Q(11, 5, 2, 11, 5, geo=2, need=[24]), Q(10, 2, 1, 12, 5, need=[24])]
        for k in (12, 13):
            js += [Q(k, 2, 1, 4, 2, need=[24]), Q(k, 3, 1, 4, 5, geo=2, need=[24]), Q(k, 2, 1, 3, 0, var=1, need=[24]), Q(k, 2, 1, 5, 2, rm=3, need=[24]),
                   Q(k, 2, 1, 0, 0), Q(k, 2, 1, 4, 4, need=[24])]
        js += [Q(14, 2, 1, 5, 2, need=[24]), Q(15, 2, 1, 4, 2, need=[24]), Q(14, 4, 2, 6, 5, need=[24]), Q(15, 3, 1, 5, 5, geo=2, need=[24]),
               Q(14, 2, 1, 0, 0), Q(15, 2, 1, 0, 0)]
        if T:
            js += [Q(k, 2, 1, 5, s, need=[24]) for k in (12, 13) for s in (0, 2, 4)] + [Q(k, 4, 2, 6, 5, need=[24]) for k in (12, 13)]
            js += [Q(11, 2, 1, 11, s, need=[24]) for s in (0, 5, 8)] + [Q(k, 2, 1, 6, 2, need=[24]) for k in (14, 15)]
    if prop == "C09":
        js += [Q(20, 2, 1, 4, 2, need=[21, 27]), Q(20, 2, 1, 5, 2, need=[21, 27]), Q(20, 3, 1, 4, 5, geo=2, need=[21, 27]), Q(20, 4, 2, 5, 5, need=[21, 27]),
               Q(20, 2, 1, 6, 4, rm=9, need=[21, 27]), Q(20, 2, 1, 4, 3, need=[21, 27]), Q(20, 2, 1, 1, 0, need=[27]), Q(20, 2, 1, 0, 0),
               Q(22, 2, 1, 5, 2, need=[21, 26]), Q(22, 4, 2, 6, 5, need=[21, 26]), Q(22, 2, 1, 5, 4, geo=2, need=[21, 26]), Q(22, 3, 1, 6, 8, need=[21, 26]),
               Q(22, 2, 1, 0, 0, need=[25]), Q(22, 2, 1, 2, 0, need=[26]), Q(20, 2, 1, 4, 8, var=1, need=[21, 27]), Q(20, 2, 1, 3, 0, need=[21, 27])]
        if T:
            js += [Q(20, 2, 1, 5, s, geo=g, need=[21, 27]) for s in (0, 4, 5) for g in (1, 2)] + [Q(20, 4, 2, 6, 5, need=[21, 27]), Q(20, 3, 1, 5, 8, need=[21, 27])]
            js += [Q(22, 2, 1, 6, s, need=[21, 26]) for s in (0, 2, 4)] + [Q(22, 4, 2, 8, 5, need=[21, 26])]
    if prop == "C10":
        js += [Q(21, 2, 1, 4, 2, need=[27, 28]), Q(21, 3, 1, 4, 5, geo=2, need=[27, 28]), Q(21, 2, 1, 5, 4, rm=2, need=[27, 28]), Q(21, 2, 1, 4, 3, need=[27, 28]),
               Q(21, 4, 2, 5, 5, need=[27, 28]), Q(21, 2, 1, 1, 0, need=[27, 28]), Q(21, 2, 1, 0, 0), Q(21, 2, 1, 5, 2, need=[27, 28]),
               Q(23, 2, 1, 4, 2, need=[25, 26]), Q(23, 2, 1, 5, 2, need=[25, 26]), Q(23, 4, 2, 5, 5, geo=2, need=[25, 26]), Q(23, 3, 1, 5, 8, need=[25, 26]),
               Q(23, 2, 1, 0, 0, need=[25]), Q(21, 2, 1, 3, 0, var=1, need=[27, 28])]
        if T:
            js += [Q(21, 2, 1, 5, s, geo=g, need=[27, 28]) for s in (0, 4, 5) for g in (1, 2)] + [Q(21, 4, 2, 6, 5, need=[27, 28])]
            js += [Q(23, 2, 1, 6, s, need=[25, 26]) for s in (0, 2, 4)] + [Q(23, 4, 2, 7, 5, need=[25, 26])]
    return js



# shapes: (max, min, n, build order, geometry, removed)
SH = {"e": (2, 1, 0, 0, 1, 0), "x": (2, 1, 3, 0, 1, 7), "1": (2, 1, 1, 0, 1, 0), "2": (2, 1, 2, 0, 1, 0), "3": (2, 1, 3, 0, 1, 0), "3b": (3, 1, 3, 2, 2, 0),
      "4": (2, 1, 4, 2, 1, 0), "4w": (4, 2, 4, 5, 2, 0), "5": (2, 1, 5, 2, 1, 0), "5o": (2, 1, 5, 5, 2, 0), "6": (2, 1, 6, 4, 1, 0),
      "6r": (2, 1, 6, 2, 1, 5), "7": (3, 1, 7, 5, 2, 0), "8": (2, 1, 8, 4, 1, 0), "9": (4, 2, 9, 5, 1, 0), "9b": (2, 1, 9, 1, 1, 0),
      "16": (2, 1, 16, 9, 2, 0), "16b": (2, 1, 16, 5, 1, 0), "20": (2, 1, 20, 5, 2, 0), "22": (4, 2, 22, 8, 1, 0), "22w": (8, 4, 22, 9, 2, 0),
      "18": (3, 1, 18, 9, 2, 0), "24": (6, 3, 24, 12, 1, 0), "11": (5, 2, 11, 5, 2, 0), "3s": (2, 1, 3, 3, 1, 0), "12": (2, 1, 12, 5, 2, 0), "14": (4, 2, 14, 8, 1, 0)}
DIMS = ["1D with 1D", "1D with 2D owning values", "2D owning values with 1D"]


def join(prop, l, r, pat, extra, mode, dims=0, need=()):
    name = "%s-%s-%s-p%d-x%d-m%d-d%d" % ("j" if mode == 0 else "l" if mode == 1 else "s", l, r, pat, extra, mode, dims)
    a, b = SH[l], SH[r]
    ps = "any set of matching pairs" if pat == 0 else "any one pair arbitrary, the others fixed" if pat >= 1000 else "every %d-th pair arbitrary" % pat if pat > 0 else "a fixed pattern of matching pairs"
    xs = {0: "bounds always accepted", 1: "bounds accepted only if needed", 2: "bounds accepted arbitrarily beyond need",
          100: "one pair of bounds accepted beyond need"}.get(
        extra, "every %d-th pair of bounds accepted arbitrarily beyond need" % (extra - 1))
    what = "%s of %d entries (max=%d min=%d) and %d entries (max=%d min=%d), %s; %s, %s" % (
        "join" if mode == 0 else "left_join" if mode == 1 else "join and left_join, what the filter is asked and what is opened:" if mode == 2 else "all schedules of %d steps with up to %d inner iterators, left_join" % (mode % 100, mode // 100),
        a[2], a[0], a[1], b[2], b[0], b[1], DIMS[dims], ps, xs)
    return J(name, "h_join", N[prop], *a, *b, pat, extra, mode, dims, need=[9] + list(need), what=what)


def join_jobs(prop, tier):
    T = tier == "thorough"
    js = []
    if prop in ("C11", "C12"):
        md = 0 if prop == "C11" else 1
        full = [30, 31] if md == 0 else [33, 34]
        A = lambda l, r, pat, extra, dims=0, need=full: js.append(join(prop, l, r, pat, extra, md, dims, need))
        A("3", "3", 0, 2)
        A("4", "2", 0, 2, 1)
        A("2", "4", 0, 2, 2)
        A("3b", "3s", 0, 2)
        A("1", "5", 0, 2)
        A("5", "1", 0, 2)
        A("4w", "2", 0, 2, 1)
        A("1", "8", 0, 4, 2)
        A("8", "1", 0, 4, 1)
        A("5", "3", 3, 3)
        A("3", "5", 3, 3)
        A("6", "5o", 4, 3)
        A("5o", "6r", 4, 4)
        A("9", "5", 6, 3, 1)
        A("7", "2", 2, 3)
        A("2", "7", 2, 3, 2)
        A("9b", "3", 5, 4)
        A("3", "9b", 5, 4)
        A("11", "4w", 7, 4)
        A("8", "9", 11, 5)
        A("9", "8", 11, 5)
        for l, r in (("e", "e"), ("e", "4"), ("x", "3")):
            A(l, r, 0, 2, 0, ())
        # trees of very different heights
        for k, (l, r) in enumerate((("16", "3"), ("4", "20"), ("22", "16b"), ("18", "1"), ("2", "16"), ("24", "5"), ("3s", "22"), ("16b", "22w"), ("9", "20"),
                                    ("20", "3b"), ("22w", "7"), ("7", "24"))):
            A(l, r, 1000 + (7, 9, 30)[k % 3], (1, 100, 0, 1)[k % 4] if SH[l][2] * SH[r][2] < 100 else 1, 0, ())
        for l, r in (("4", "e"), ("5", "x")):
            A(l, r, 0, 2, 0, () if md == 0 else [35])
        if T:
            for l in ("3", "5", "8", "9", "11", "12", "14"):
                for r in ("1", "3b", "6", "9b", "7", "12"):
                    a, b = SH[l][2], SH[r][2]
                    A(l, r, max(1, a * b // 9), 6, (a + b) % 3)
            A("4", "3", 0, 2)
            A("3", "4", 0, 2)
            for l in ("16", "20", "22", "24", "18"):
                for r in ("2", "7", "16b", "22w", "9b"):
                    A(l, r, 1009, 1, 0, ())
                    A(r, l, 1030, 100 if SH[l][2] * SH[r][2] < 200 else 1, 0, ())
            A("12", "14", 20, 12)
            A("14", "12", 20, 12)
    if prop == "C13":
        S = lambda l, r, pat, extra, mode, dims=0, need=(40, 41, 42): js.append(join(prop, l, r, pat, extra, mode, dims, need))
        S("3", "3", -3, 1, 307)
        S("2", "2", 0, 1, 205, 1)
        S("2", "3", 0, 2, 204)
        S("5", "3", -3, 0, 307)
        S("3", "8", -3, 0, 307, 1)
        S("8", "2", -2, 1, 306)
        S("1", "5", -3, 0, 108, 0, (40, 41))
        S("4", "1", -5, 0, 407)
        S("9", "5o", -3, 1, 306, 2)
        S("4w", "9", -2, 1, 306)
        S("4", "e", 0, 0, 306)
        S("e", "3", 0, 0, 303, 0, ())
        S("2", "9", -3, 0, 306)
        S("3", "12", -4, 0, 306, 1)
        S("9", "12", -4, 1, 305)
        S("5", "18", -4, 1, 305)
        S("9", "9b", -3, 1, 307)
        S("12", "16b", -5, 1, 306)
        S("16b", "12", -5, 1, 306)
        S("24", "22w", -4, 1, 306)
        S("6r", "6r", -2, 1, 307)
        S("3", "16b", -2, 0, 308)
        if T:
            S("3", "3", -3, 1, 310)
            S("5", "4", -3, 1, 409, 1)
            S("3", "8", -3, 0, 409)
            S("8", "3", -3, 0, 409)
            S("3", "3", 3, 1, 308)
            S("12", "9", -3, 0, 308)
            S("5", "14", -4, 0, 308)
    return js


OWNOPS = dict(OPS)
OWNOPS[8] = "any iterator of any kind, abandoned after 0-3 steps"
OWNOPS[5] = "get_mut(any key), value replaced"
CLOPS = dict(OPS)
for _k in (5, 6, 7, 8):
    CLOPS[_k] = "get_mut(any key), value changed"


def digits(script, names):
    ops = []
    while script:
        ops.append(names[script % 10])
        script //= 10
    return ", ".join(ops) or "nothing"


def tree(mx, mn, n, seed, geo, rm, vol=0):
    return "tree of %d entries (max=%d min=%d, build order %d%s, %s, %s)" % (
        n, mx, mn, seed, ", some removed" if rm else "", ["any boxes", "separate boxes", "overlapping boxes"][geo], VOLS[vol])


MOPS = ["insert", "insert_unique", "remove", "get", "get_mut", "iter", "iter_mut collected", "iter forgotten part-way",
        "filter_iter_mut forgotten part-way", "iter_asc_by_mut held, dropped or forgotten", "filter_iter_asc_by", "join, drained or abandoned",
        "left_join, inner iterators kept, forgotten or outliving", "clone, replaced or forgotten", "move", "replaced by a new tree"]
TYPES = ["zero-sized key and value", "8-byte key, zero-sized value", "zero-sized key, 72-byte value", "64-aligned key, 128-aligned value",
         "boxed key, Vec value", "8-byte key, 72-byte value", "8-byte key, 1-byte value"]
POPS = {1: "insert", 2: "insert_unique(new)", 3: "insert_unique(stored)", 4: "remove(stored)", 5: "get and get_mut", 6: "clone",
        7: "filter_iter_mut", 8: "ranked iterators", 9: "join", 10: "left_join", 11: "remove(absent)", 12: "filter_iter"}
LATER = ["nothing", "insert", "remove", "clone", "insert_unique"]


def own_jobs(prop, tier):
    T = tier == "thorough"
    js = []

    def clone(mx, mn, n, script, seed=0, geo=1, rm=0, var=0, vol=0, side=0, o=0, need=(50,)):
        js.append(J("c-m%d.%d-n%d-%d-s%d-g%d-r%d-v%d-V%d-%d-o%d" % (mx, mn, n, script, seed, geo, rm, var, vol, side, o), "h_clone", 14,
                    mx, mn, n, seed, geo, rm, var, vol, script, side, o, need=[9] + list(need),
                    what="clone of a %s%s; on the %s, then on the other: %s; one of them is dropped" % (
                        tree(mx, mn, n, seed, geo, rm, vol), ["", " in 2D", " with owning values"][var],
                        "clone" if side else "original", digits(script, CLOPS))))

    def own(mx, mn, n, script, seed=0, geo=1, rm=0, vol=0, o=0, need=()):
        js.append(J("o-m%d.%d-n%d-%d-s%d-g%d-r%d-V%d-o%d" % (mx, mn, n, script, seed, geo, rm, vol, o), "h_own", 15,
                    mx, mn, n, seed, geo, rm, vol, script, o, need=[9] + list(need),
                    what="%s with owning keys and values, then %s; every token and allocation accounted for after each call and at the end" % (
                        tree(mx, mn, n, seed, geo, rm, vol), digits(script, OWNOPS))))

    def mem(mx, mn, n, steps, ops, ty, seed=0, need=()):
        js.append(J("m-m%d.%d-n%d-x%d-k%d-t%d-s%d" % (mx, mn, n, steps, ops, ty, seed), "h_mem", 16, mx, mn, n, seed, steps, ops, ty,
                    need=[9] + list(need), what="%s: tree of %d entries (max=%d min=%d), then every sequence of %d calls out of %s with any arguments" % (
                        TYPES[ty], n, mx, mn, steps, "16" if ops == 0 else MOPS[ops - 1])))

    def pan(mx, mn, n, op, later=0, seed=0, geo=1, rm=0, o=0, need=(61, 62)):
        js.append(J("p-m%d.%d-n%d-%d-l%d-s%d-g%d-r%d-o%d" % (mx, mn, n, op, later, seed, geo, rm, o), "h_panic", 17, mx, mn, n, seed, geo, rm, op, o, 5000, later,
                    need=[9] + list(need), what="%s, %s, panic in any one user callback; tree then iterated, queried, %s, dropped" % (
                        tree(mx, mn, n, seed, geo, rm), POPS[op], LATER[later])))

    if prop == "C14":
        clone(2, 1, 5, 39, 2)
        clone(4, 2, 8, 91, 5, var=2, side=1)
        clone(2, 1, 3, 399, 0, var=0, vol=2, side=1)
        clone(2, 1, 0, 311, side=1)
        clone(2, 1, 3, 6, 0, geo=0)
        clone(2, 1, 3, 4, 0, geo=0, var=1, side=1)
        clone(2, 1, 4, 3, 2, geo=0, var=2)
        clone(2, 1, 3, 2, 0, vol=1)
        clone(3, 1, 4, 1, 5, vol=1, side=1, need=())
        clone(2, 1, 7, 93, 4, rm=5)
        clone(6, 3, 14, 9, 8, side=1)
        clone(4, 2, 4, 1, 0, vol=2, need=())
        clone(5, 2, 11, 9, 7, var=2)
        clone(2, 1, 3, 9, 0, rm=7, need=())
        clone(2, 1, 1, 129, 0, vol=2)
        clone(8, 4, 17, 69, 5, var=1)
        clone(2, 1, 6, 999, 2)
        clone(4, 2, 12, 99, 9, side=1)
        clone(2, 1, 4, 33, 2, geo=0)
        clone(2, 1, 4, 2, 2, vol=1, side=1)
        clone(2, 1, 4, 6, 4, geo=0, side=1)
        for k, (mx, mn, n, s) in enumerate(TALL):
            if mx > 2 or n < 20:
                clone(mx, mn, n, (9, 19, 6)[k % 3] if k % 4 else 99 if n < 20 else 9, s, geo=1 + k % 2, vol=2, side=k // 2 % 2, need=())
        if T:
            for s in (0, 2, 4):
                clone(2, 1, 6, 399, s)
                clone(2, 1, 4, 33, s, geo=0, side=1)
                clone(2, 1, 4, 2, s, vol=1)
            for s in (5, 8, 12):
                clone(4, 2, 16, 99, s, side=1)
                clone(4, 2, 20, 9, s, var=2)
            clone(2, 1, 3, 21, 0, vol=1)
    if prop == "C15":
        own(2, 1, 5, 399, 2, need=(54,))
        own(4, 2, 8, 99, 5, o=1, need=(54,))
        own(2, 1, 3, 245, 0, geo=0, need=(55,))
        own(2, 1, 4, 8, 0, need=(51, 52, 53))
        own(2, 1, 4, 3, 2, geo=0)
        own(2, 1, 3, 2, 0, geo=0, vol=1, need=(55,))
        own(2, 1, 4, 2, 2, vol=1, need=())
        own(3, 1, 4, 1, 5, vol=1, need=())
        own(2, 1, 0, 931, need=())
        own(6, 3, 14, 9, 8, need=(54,))
        own(4, 2, 4, 1, 0, vol=2)
        own(8, 4, 17, 9, 5, need=(54,))
        own(4, 2, 5, 8, 5, need=(51,))
        own(2, 1, 5, 8, 2, rm=3, need=(51, 53))
        own(2, 1, 0, 8, need=(51,))
        own(2, 1, 4, 99999, 2, need=(54,))
        own(3, 1, 4, 28, 8, vol=0, need=(51,))
        for k, (mx, mn, n, s) in enumerate(TALL):
            own(mx, mn, n, 9 if n > 20 or k % 2 else 99, s, geo=1 + k % 2, vol=2, need=(54,))
        if T:
            for s in (0, 2, 4):
                own(2, 1, 7, 999, s, need=(54,))
                own(2, 1, 5, 23, s, geo=0, need=(55,))
                own(2, 1, 5, 8, s, need=(51, 52, 53))
                own(2, 1, 4, 12, s, vol=1)
            for s in (5, 8, 12):
                own(4, 2, 18, 9, s, need=(54,))
                own(4, 2, 9, 89, s, need=(51,))
                own(4, 2, 12, 1, s, vol=2)
    if prop == "C16":
        mem(2, 1, 0, 3, 0, 0, need=[60])
        for ty in (1, 2, 3, 4):
            mem(2, 1, 3, 2, 0, ty, need=[60])
        for ty in (0, 2):
            mem(2, 1, 5, 2, 0, ty, need=[60])
        mem(4, 2, 5, 1, 0, 5, need=[60])
        mem(2, 1, 6, 1, 0, 6, need=[60])
        mem(3, 1, 7, 1, 0, 4, 5, need=[60])
        mem(6, 3, 14, 1, 0, 5, 8, need=[60])
        mem(2, 1, 5, 1, 0, 3, 2, need=[60])
        mem(2, 1, 2, 3, 1, 3)
        mem(2, 1, 3, 3, 3, 4)
        mem(2, 1, 5, 2, 13, 4)
        mem(4, 2, 9, 2, 3, 1)
        for k, (mx, mn, n, s) in enumerate(TALL):
            mem(mx, mn, min(n, 30), 1, 0, (1, 3, 4, 5, 6)[k % 5], s, need=[60])
        if T:
            for ty in range(7):
                mem(2, 1, 2, 3, 0, ty, need=[60])
                mem(4, 2, 8, 2, 0, ty, 5, need=[60])
                mem(2, 1, 6, 2, 0, ty, 2, need=[60])
            mem(2, 1, 0, 4, 0, 0, need=[60])
            mem(2, 1, 6, 4, 3, 5, 2)
            mem(2, 1, 2, 4, 1, 3)
            mem(2, 1, 3, 4, 13, 4)
    if prop == "C17":
        for op in range(1, 13):
            if op != 8:
                for l in range(1, 5):
                    pan(2, 1, 5, op, l, 2)
                    pan(4, 2, 4, op, (l + 1) % 5, 5)
                    pan(2, 1, 7, op, l, 4, geo=2)
                pan(2, 1, 6, op, 2, 2, rm=5)
        for l in range(1, 5):
            pan(2, 1, 3, 8, l)
            for op in (1, 4, 6):
                pan(4, 2, 12, op, l, 9, need=(61, 62))
                pan(6, 3, 7, op, l, 8)
            pan(2, 1, 8, 4, l, 4)
            pan(3, 1, 4, 1, l, 5)
        for k, (mx, mn, n, s) in enumerate(TALL):
            for j, op in enumerate((4, 1, 6, 3)):
                if mx > 2 or n < 20:
                    if T or j == 0 or (j + k) % 3 == 0:
                        pan(mx, mn, n, op, (k + j) % 4 + 1, s, geo=1 + k % 2)
        for op in (1, 2, 3, 4, 5):
            pan(2, 1, 3, op, 1, 0, geo=0)
            pan(2, 1, 0, op, 2, need=(62,))
            pan(2, 1, 2, op, 1)
        if T:
            for op in range(1, 13):
                if op == 8:
                    pan(2, 1, 4, 8, 2, 2)
                    continue
                for s in (0, 1, 2, 4, 5, 8):
                    for l in range(5):
                        pan(2, 1, 8, op, l, s)
                        pan(2, 1, 9, op, l, s, geo=2)
                        pan(3, 1, 9, op, l, s, rm=18)
                        if op not in (7, 12):
                            pan(4, 2, 14, op, l, s, geo=2)
                            pan(4, 2, 16, op, l, s)
                            pan(8, 4, 8, op, l, s)
                if op < 6:
                    pan(2, 1, 4, op, 1, 2, geo=0)
    return js


NT = ["i32", "i64", "N64"]
FULL = {0: (-2**31, 2**31 - 1), 1: (-2**63, 2**63 - 1), 2: (-10**6, 10**6)}
BOXPARTS = ["a box contains/intersects a point", "a box contains a box", "two boxes intersect", "union", "union_all, empty", "equality and corners",
            "bounds of points and segments", "vector and box conversions"]
DPARTS = {0: "distance of two points", 1: "distance of a box and a point", 2: "a box is never farther than a point inside it",
          3: "a box is never farther than a box inside it", 10: "distance of two boxes", 11: "box distance against distances of points inside"}
NEAR = ["min_by over points", "min_by over boxes", "iter_asc_by over points", "iter_asc_by over boxes"]
SHAPES = ["IntersectsFilter(box)", "BoundedIntersectsFilter(box)", "ContainsFilter(box)", "BoundedContainsFilter(box)", "NoFilter",
          "IntersectsFilter(point)", "BoundedIntersectsFilter(point)", "BoundedIntersectsFilter(sphere)"]
QUERIES = ["iter, get, remove, clone, refilling", "searches with box and point filters", "searches with spheres, segments and rays",
           "searches by distance", "join and left_join"]


def geom_jobs(prop, tier):
    T = tier == "thorough"
    js = []

    def box(D, t, part, lo=None, hi=None):
        lo, hi = (lo, hi) if lo is not None else FULL[t]
        name = BOXPARTS[part] if part < 8 else {20: "arithmetic", 21: "volume, delta, squared length"}[part]
        js.append(J("b-D%d-%s-%d-%d" % (D, NT[t], part, hi), "h_box", 18, D, t, part, lo, hi, need=[9],
                    what="%s: %s coordinates in %d..%d, %d dimensions" % (name, NT[t], lo, hi, D)))

    def dist(D, t, part, w):
        js.append(J("d-D%d-%s-%d-%d" % (D, NT[t], part, w), "h_dist", 21, D, t, part, -w, w, need=[9],
                    what="%s: %s coordinates in %d..%d, %d dimensions" % (DPARTS[part], NT[t], -w, w, D)))

    def near(D, t, kind, mx, mn, seed, n, w):
        js.append(J("n-D%d-%s-%d-m%d.%d-s%d-n%d-w%d" % (D, NT[t], kind, mx, mn, seed, n, w), "h_dist", 21, D, t, 20 + kind, mx, mn, seed, n, w, need=[9],
                    what="%s: tree of %d fixed %s keys (max=%d min=%d, layout %d), any centre within %d, %d dimensions" % (
                        NEAR[kind], n, NT[t], mx, mn, seed, w, D)))

    def filt(D, t, kind, point, lo=None, hi=None):
        lo, hi = (lo, hi) if lo is not None else FULL[t]
        js.append(J("f-D%d-%s-%d-%s-%d" % (D, NT[t], kind, "p" if point else "b", hi), "h_filter", 19, D, t, kind, point, lo, hi, need=[9, 73],
                    what="%s on any %s key and any box around it: %s coordinates in %d..%d, %d dimensions" % (
                        SHAPES[kind], "point" if point else "box", NT[t], lo, hi, D)))

    def sphere(D, t, w, r):
        js.append(J("s-D%d-%s-%d-%d" % (D, NT[t], w, r), "h_filter", 19, D, t, 7, 1, -w, w, r, need=[9, 72, 73],
                    what="%s on any point key and any box around it: %s coordinates within %d, radius to %d, %d dimensions" % (SHAPES[7], NT[t], w, r, D)))

    def ftree(D, t, kind, point, mx, mn, seed, n, w, sk=0, need=(9, 73)):
        js.append(J("t-D%d-%s-%d-%s-m%d.%d-s%d-n%d-w%d-k%d" % (D, NT[t], kind, "p" if point else "b", mx, mn, seed, n, w, sk), "h_filter", 19,
                    D, t, 20 + kind, point, mx, mn, seed, n, w, sk, need=need,
                    what="search by any %s within %d in a tree of %d %s %s keys (max=%d min=%d, layout %d), %d of them anywhere, %d dimensions" % (
                        SHAPES[kind], w, n, NT[t], "point" if point else "box", mx, mn, seed, sk, D)))

    def ray(D, t, r, part, w, dm, dr=0, need=(9,)):
        js.append(J("r-D%d-%s-%s-%d-w%d-d%d-%d" % (D, NT[t], "ray" if r else "seg", part, w, dm, dr), "h_ray", 20, D, t, r, part, w, dm, dr, need=need,
                    what="%s against boxes (%s): %s coordinates within %d, %s, %d dimensions" % (
                        "rays" if r else "segments", "larger boxes" if part == 1 else "exact geometry", NT[t], w,
                        "every direction with components within %d%s" % (dm, " times %d" % part if part > 9 else ""), D)))

    def rtree(D, t, r, mx, mn, seed, n, w, dm):
        js.append(J("rt-D%d-%s-m%d.%d-s%d-n%d-w%d-d%d" % (D, "ray" if r else "seg", mx, mn, seed, n, w, dm), "h_ray", 20, D, t, r, 2, mx, mn, seed, n, w, dm, need=[9, 74, 75],
                    what="search along %s from any origin within %d, every direction with components within %d, in a tree of %d fixed box keys (max=%d min=%d, layout %d), %d dimensions" % (
                        "rays" if r else "segments", w, dm, n, mx, mn, seed, D)))

    def empty(D, q, mx, mn, was):
        js.append(J("e-D%d-q%d-m%d.%d-w%d" % (D, q, mx, mn, was), "h_empty", 22, D, q, mx, mn, was, need=[9],
                    what="%s on trees emptied of %d entries (max=%d min=%d), any query coordinates, %d dimensions" % (QUERIES[q], was, mx, mn, D)))

    if prop == "C18":
        for D in (1, 2, 3, 4):
            for t in (0, 1, 2):
                for part in range(8):
                    if D < 4 or t == 0:
                        box(D, t, part)
        for D in (1, 2, 3):
            for t in (0, 1, 2):
                box(D, t, 20, -1000, 1000)
            for t in (0, 2):
                box(D, t, 21, -5, 5)
                box(D, t, 21, -1000, 1000)
        if T:
            for D in (1, 2, 3):
                for t in (0, 1, 2):
                    box(D, t, 20, -10**6, 10**6)
                for t in (0, 2):
                    box(D, t, 21, -10**4, 10**4)
    if prop == "C19":
        for D in (1, 2, 3):
            for t in (0, 1, 2):
                for kind in range(7):
                    for point in (0, 1):
                        if (kind < 5 or not point) and (t < 2 or D == 2):
                            if t == 2:
                                filt(D, t, kind, point, -1000, 1000)
                            else:
                                filt(D, t, kind, point)
        for D in (1, 2, 3):
            sphere(D, 0, 15, 15)
        sphere(2, 2, 15, 15)
        sphere(1, 0, 100, 100)
        for kind in range(7):
            for point in (0, 1):
                if kind < 5 or not point:
                    nd = (9, 73) if kind == 4 else (9, 72, 73)
                    for D, n, seed in ((1, 9, 9), (2, 9, 9), (2, 12, 5)):
                        ftree(D, 0, kind, point, 4, 2, seed, n, 20, 0, nd)
                    ftree(2, 2, kind, point, 2, 1, 7, 6, 20, 0, nd)
                    if point or kind == 4:
                        ftree(2, 0, kind, point, 2, 1, 9, 4, 10, 1, nd)
                    ftree(1, 0, kind, point, 2, 1, 9, 4, 10, 1, nd)
        ftree(1, 0, 7, 1, 4, 2, 9, 9, 20, 0, (9, 72, 73))
        ftree(2, 0, 7, 1, 2, 1, 9, 5, 7, 0, (9, 72, 73))
        if T:
            sphere(2, 0, 100, 100)
            sphere(3, 0, 60, 60)
            for kind in range(7):
                for point in (0, 1):
                    if kind < 5 or not point:
                        nd = (9, 73) if kind == 4 else (9, 72, 73)
                        for s in (3, 5, 11):
                            ftree(2, 0, kind, point, 3, 1, s, 20, 50, 0, nd)
                            ftree(3, 0, kind, point, 4, 2, s, 16, 50, 0, nd)
                            ftree(2, 0, kind, point, 2, 1, s, 5, 12, 1, nd)
                        ftree(1, 0, kind, point, 2, 1, 9, 5, 10, 2, nd)
            ftree(2, 0, 7, 1, 2, 1, 9, 9, 10, 0, (9, 72, 73))
            ftree(2, 0, 7, 1, 4, 2, 5, 9, 15, 0, (9, 72, 73))
    if prop == "C20":
        for r in (0, 1):
            for t in (0, 2):
                ray(1, t, r, 0, 100, 3)
                ray(1, t, r, 1, 100, 3)
                ray(2, t, r, 0, 50, 3)
                ray(2, t, r, 1, 20, 3)
                ray(3, t, r, 0, 20, 1)
                ray(3, t, r, 1, 20, 1)
            ray(2, 0, r, 10, 9, 2)
            ray(3, 0, r, 0, 7, 2)
            ray(2, 0, r, 0, 1000, 2)
            rtree(2, 0, r, 2, 1, 9, 6, 20, 1)
        if T:
            for r in (0, 1):
                ray(2, 0, r, 0, 50, 12)
                ray(2, 0, r, 1, 50, 8)
                ray(2, 0, r, 0, 1000, 4)
                ray(3, 0, r, 0, 20, 3)
                ray(3, 0, r, 1, 20, 3)
                ray(3, 2, r, 0, 20, 2)
                rtree(2, 0, r, 4, 2, 9, 9, 20, 2)
                rtree(2, 0, r, 3, 1, 5, 8, 20, 3)
    if prop == "C21":
        for t in (0, 1, 2):
            for D in (1, 2, 3):
                dist(D, t, 0, 1000 if t < 2 else 200)
                for part in (1, 2, 3):
                    dist(D, t, part, {1: 100, 2: 20, 3: 7}[D] if t < 2 else {1: 100, 2: 7, 3: 5}[D])
        for t in (0, 2):
            for D in (1, 2, 3):
                for part in (10, 11):
                    dist(D, t, part, {1: 100, 2: 20, 3: 7}[D] if t < 2 else {1: 100, 2: 7, 3: 5}[D])
        for kind in range(4):
            near(1, 0, kind, 2, 1, 9, 6, 20)
            near(2, 0, kind, 2, 1, 9, 4, 7)
        near(1, 0, 2, 4, 2, 5, 9, 20)
        near(2, 0, 0, 2, 1, 5, 6, 7)
        near(2, 0, 2, 3, 1, 1, 5, 7)
        near(2, 2, 0, 2, 1, 9, 4, 7)
        if T:
            for D in (1, 2):
                for part in (1, 2, 3, 11):
                    dist(D, 0, part, 1000 if D == 1 else 50)
            dist(2, 0, 10, 100)
            dist(3, 0, 10, 30)
            dist(3, 0, 1, 15)
            dist(3, 0, 2, 15)
            for s in (5, 7, 11):
                for kind in range(4):
                    near(2, 0, kind, 4, 2, s, 9, 7)
                    near(2, 0, kind, 2, 1, s, 6, 12)
                    near(1, 0, kind, 3, 1, s, 12, 50)
                near(3, 0, 0, 2, 1, s, 5, 5)
    if prop == "C22":
        for D in (1, 2, 3):
            for q in range(5):
                for was in (0, 3, 6):
                    empty(D, q, 2, 1, was)
                empty(D, q, 4, 2, 9)
        if T:
            for D in (1, 2, 3):
                for q in range(5):
                    for was in (10, 20):
                        empty(D, q, 2, 1, was)
                        empty(D, q, 6, 3, was)
    return js


LOOKS = ["get(borrowed)", "get(owned)", "get_mut(borrowed)", "insert_unique", "remove", "get_mut(owned)"]
ONCE = ["filter_iter", "filter_iter_mut", "iter_asc_by", "iter_asc_by_mut", "filter_iter_asc_by", "filter_iter_asc_by_mut", "min_by", "min_by_mut",
        "filter_min_by", "filter_min_by_mut"]


CALM = {1: "insert", 2: "insert_unique", 3: "remove(any key)", 4: "get", 5: "get", 6: "get_mut", 7: "get_mut", 8: "every unranked search, join and clone",
        9: "every search, join and clone"}
# full leaves, and tall trees, of fixed keys in two places: max, min, entries, build order, geometry, insert_unique, places
SPLITS = [(5, 2, 5, 8, 1, 1, 25), (5, 2, 5, 5, 2, 0, 19), (6, 2, 6, 2, 1, 1, 41), (6, 2, 6, 5, 1, 0, 53), (7, 2, 7, 5, 2, 0, 14), (7, 2, 7, 5, 1, 1, 31),
          (8, 3, 8, 5, 2, 0, 55), (8, 3, 8, 5, 1, 1, 46), (10, 3, 10, 2, 1, 0, 780), (10, 3, 10, 8, 2, 1, 632), (16, 6, 16, 2, 1, 0, 8303),
          (32, 8, 32, 2, 1, 0, 3322559659), (32, 8, 32, 2, 2, 1, 3746962816),
          (3, 1, 9, 2, 1, 0, 160), (3, 1, 9, 8, 1, 1, 93), (4, 1, 12, 5, 2, 0, 3959), (4, 1, 12, 5, 2, 1, 88), (5, 2, 17, 2, 2, 0, 21752),
          (5, 2, 17, 5, 2, 1, 8537), (6, 2, 19, 8, 2, 1, 312464), (8, 3, 30, 5, 2, 0, 70891065)]


def more_jobs(prop, tier):
    T = tier == "thorough"
    js = []

    def look(mx, mn, n, op, seed=0, geo=0, rm=0, d=1, vol=0, need=(80, 81, 82, 83)):
        js.append(J("k%d-m%d.%d-n%d-s%d-g%d-r%d-D%d" % (op, mx, mn, n, seed, geo, rm, d), "h_look", 23, mx, mn, n, seed, geo, rm, d, op, vol,
                    need=[9] + list(need), what="%s of any key in a %s in %dD: which stored keys are compared" % (LOOKS[op], tree(mx, mn, n, seed, geo, rm), d)))

    def place(mx, mn, n, seed=0, geo=0, rm=0, d=1, uniq=0, vol=1, ops=1, need=(84,)):
        js.append(J("i%d-m%d.%d-n%d-s%d-g%d-r%d-D%d-V%d-x%d" % (uniq, mx, mn, n, seed, geo, rm, d, vol, ops), "h_place", 24, mx, mn, n, seed, geo, rm, d, uniq,
                    vol, ops, need=[9] + list(need), what="%s of %d keys of any geometry into a %s in %dD: the child chosen on every level" % (
                        "insert_unique" if uniq else "insert", ops, tree(mx, mn, n, seed, geo, rm, vol), d)))

    def joining(l, r, pat, extra, dims=0, need=(36, 37)):
        a, b = SH[l], SH[r]
        js.append(J("J-%s-%s-p%d-x%d-d%d" % (l, r, pat, extra, dims), "h_joining", 25, *a, *b, pat, extra, dims, need=[9] + list(need),
                    what="search of %d entries (max=%d min=%d) by JoiningFilter for any of %d left keys, pattern %d, bounds %d, %s" % (
                        b[2], b[0], b[1], a[2], pat, extra, DIMS[dims])))

    def once(kind, mx, mn, n, seed=0, geo=1, rm=0, few=0, need=(87,)):
        js.append(J("o%d-m%d.%d-n%d-s%d-g%d-r%d-f%d" % (kind, mx, mn, n, seed, geo, rm, few), "h_once", 27, mx, mn, n, seed, geo, rm, kind, few,
                    need=[9] + list(need), what="%s with %s answers, drained, on a %s: what is evaluated, how often and when" % (
                        ONCE[kind], "any contract-honouring" if not few else "one entry's arbitrary, the others' fixed", tree(mx, mn, n, seed, geo, rm))))

    def split(mx, mn, n, seed, geo, rm=0, uniq=0, groups=0, need=()):
        js.append(J("p%d-m%d.%d-n%d-s%d-g%d-r%d-u%d" % (groups, mx, mn, n, seed, geo, rm, uniq), "h_split", 28, mx, mn, n, seed, geo, rm, uniq, groups,
                    need=[9] + list(need), what="%s of a key of any geometry%s: how nodes of two separated groups are split" % (
                        "insert_unique" if uniq else "insert",
                        " into any %d keys (max=%d min=%d) that fall into two groups" % (n, mx, mn) if groups == 1 else
                        " into %s, %s" % (tree(mx, mn, n, seed, geo, rm), "as they are" if not groups else
                                          "each key in either of two places" if groups == 2 else "keys in two places by the bits of %d" % (groups >> 4)))))

    def calm(mx, mn, n, script, seed=0, geo=0, rm=0, d=0, vol=2, opseed=0, need=()):
        js.append(J("t%d-m%d.%d-n%d-s%d-g%d-r%d-D%d-V%d" % (script, mx, mn, n, seed, geo, rm, d + 1, vol), "h_calm", 29, mx, mn, n, seed, geo, rm, d, vol, script, opseed,
                    need=[9] + list(need), what="two trees by the same calls, a %s in %dD; on one of them %s, on the other the effective ones only" % (
                        tree(mx, mn, n, seed, geo, rm, vol), d + 1, digits(script, CALM))))

    if prop == "C29":
        for op in (2, 3, 4, 6):
            nd = (94, 95) if op < 4 else (94,)
            calm(2, 1, 4, op, 2, need=nd)
            calm(3, 1, 5, op, 8, need=nd)
            calm(4, 2, 5, op, 5, need=nd)
            calm(2, 1, 5, op, 4, rm=2, need=nd)
            calm(2, 1, 2 if op == 2 else 3, op, 2, d=1, need=nd)
            calm(2, 1, 4, op, 3, vol=1, need=nd)
            for i, (mx, mn, n, s) in enumerate(TALL):
                if (mx > 2 or n < 20) and (T or (i + op) % 4 == 0):
                    calm(mx, mn, n, op, s, 1 + (i + op) % 2, need=nd)
        calm(2, 1, 6, 1, 4, rm=9, need=(95,))
        calm(3, 1, 5, 1, 5, need=(95,))
        calm(4, 2, 6, 6, 5, vol=1, need=(94,))
        calm(3, 1, 4, 23, 5, need=(94, 95))
        calm(2, 1, 3, 32, 2, need=(94, 95))
        calm(4, 2, 24, 32, 5, 2, need=(94, 95))
        calm(6, 3, 30, 62, 2, 2, need=(94, 95))
        calm(3, 1, 20, 346, 9, 1, need=(94, 95))
        calm(5, 2, 20, 623, 8, 2, need=(94, 95))
        for i, (mx, mn, n, s) in enumerate(TALL):
            if (mx > 2 or n < 20) and n <= 40 and (T or i % 3 == 0):
                calm(mx, mn, n, 98, s, 1 + i % 2, need=(94,))
        calm(2, 1, 5, 898, 4, need=(94,))
        calm(2, 1, 0, 8, need=(94,))
        calm(4, 2, 4, 98, 3, d=1, need=(94,))
        if T:
            for script in (22, 33, 23, 32, 132, 36, 26, 213):
                calm(2, 1, 4, script, 2)
                calm(3, 1, 5, script, 5)
                calm(4, 2, 6, script, 8)
                calm(6, 3, 24, script, 12, 2)
                calm(3, 1, 14, script, 9, 1)
                calm(8, 4, 30, script, 5, 2)
    if prop == "C28":
        split(3, 1, 3, 0, 0, groups=1, need=(90, 91))
        split(3, 1, 3, 5, 1, groups=2, need=(90, 91))
        split(4, 1, 4, 5, 2, groups=2, need=(90, 91))
        split(5, 2, 5, 8, 1, groups=2, need=(90, 91))
        split(3, 1, 5, 5, 2, groups=2, need=(90, 91))
        split(3, 1, 5, 8, 1, uniq=1, groups=2, need=(90, 91))
        for mx, mn, n, s, g, u, m in SPLITS:
            if mx <= 16 or T:
                split(mx, mn, n, s, g, 0, u, m << 4, need=(90, 91) if n == mx else (91,))
        for i, (mx, mn, n, s) in enumerate(TALL):
            if mx > 2 and (T or i % 2 == 0) and n <= 40:
                split(mx, mn, n, s, 1, 0, i % 4 // 2)
        if T:
            for mx, mn, n, s, g, r in ((3, 1, 7, 8, 2, 0), (4, 1, 8, 8, 1, 0), (3, 1, 9, 5, 1, 0), (6, 2, 6, 8, 2, 0), (6, 2, 9, 9, 1, 0), (7, 2, 7, 9, 1, 0), (8, 3, 8, 9, 2, 0)):
                split(mx, mn, n, s, g, r, n % 2, 2, need=(90, 91))
            split(4, 1, 4, 0, 0, groups=1, need=(90, 91))
    if prop == "C23":
        for op in range(6):
            look(2, 1, 5, op, 2)
            look(4, 2, 9, op, 5)
            look(2, 1, 6, op, 4, rm=9)
            look(2, 1, 4, op, 2, d=2)
            look(3, 1, 7, op, 8, geo=2)
            look(2, 1, 0, op, need=() if op == 3 else (83,))
            for i, (mx, mn, n, s) in enumerate(TALL):
                if (i + op) % 3 == 0 or T:
                    look(mx, mn, n, op, s, geo=1 + (i + op) % 2, vol=2, need=(80, 81))
            if T:
                for s in (0, 2, 4, 8):
                    look(2, 1, 8, op, s)
                    look(4, 2, 14, op, s)
                    look(2, 1, 5, op, s, d=2)
                look(6, 3, 20, op, 8)
                look(2, 1, 8, op, 8, rm=65)
    if prop == "C24":
        for u in (0, 1):
            v = 2 if u else 1
            place(2, 1, 3, 0, uniq=u, vol=v)
            place(2, 1, 4, 2, uniq=u, vol=v)
            place(2, 1, 5, 2, uniq=u, vol=v)
            place(3, 1, 5, 5, uniq=u, vol=v)
            place(3, 1, 6, 8, uniq=u, vol=v)
            if not u:
                place(2, 1, 3, 0, d=2)
            place(4, 2, 14, 8, geo=1, uniq=u, vol=2, ops=2)
            place(2, 1, 7, 2, geo=2, uniq=u, vol=2)
            place(2, 1, 6, 4, rm=9, uniq=u, vol=v)
            for i, (mx, mn, n, s) in enumerate(TALL):
                if (i + u) % 2 == 0 or T:
                    if mx > 2 or n < 20:
                        place(mx, mn, n, s, geo=1 + i % 2, vol=2, uniq=u)
        if T:
            for s in (0, 2, 4, 5):
                place(2, 1, 6, s)
                place(3, 1, 7, s)
                place(4, 1, 9, s)
            for s in (5, 8, 9, 12):
                for mx, mn in ((4, 2), (6, 3), (3, 1), (8, 4)):
                    place(mx, mn, 24, s, geo=2, vol=2, ops=2)
    if prop == "C25":
        for l, r, p, x, d in (("3", "3", 0, 2, 0), ("2", "5", 0, 2, 0), ("3b", "4w", 0, 2, 1), ("1", "8", 0, 4, 2), ("4", "6", 5, 3, 0), ("5", "9", 7, 3, 1),
                              ("2", "9b", 3, 3, 0), ("1", "7", 0, 2, 0), ("3s", "5o", 3, 3, 2)):
            joining(l, r, p, x, d)
        for k, r in enumerate(("16", "20", "22", "16b", "22w", "18", "24")):
            joining(("5", "3")[k % 2], r, 1000 + (3, 9)[k % 2], (1, 100)[k % 2])
        joining("3", "e", 0, 2, 0, ())
        joining("2", "x", 0, 2, 1, ())
        if T:
            for l, r, p, x, d in (("4", "8", 0, 2, 0), ("9", "12", 9, 6, 1), ("12", "14", 11, 6, 2), ("1", "9", 0, 2, 0), ("2", "11", 0, 4, 0)):
                joining(l, r, p, x, d)
            for r in ("16", "20", "22", "16b", "22w", "18", "24"):
                joining("7", r, 1005, 100)
    if prop == "C26":
        K = lambda l, r, pat, extra, dims=0, need=(30, 31, 33, 34): js.append(join(prop, l, r, pat, extra, 2, dims, need))
        for l, r, p, x, d in (("3", "3", 0, 2, 0), ("4", "2", 0, 2, 1), ("2", "4", 0, 2, 2), ("1", "5", 0, 2, 0), ("5", "1", 0, 2, 0), ("3b", "3s", 0, 2, 0),
                              ("5", "3", 3, 3, 0), ("3", "5", 3, 3, 0), ("6", "5o", 4, 3, 0), ("9", "5", 6, 3, 1), ("7", "2", 2, 3, 0), ("2", "7", 2, 3, 2),
                              ("9b", "3", 5, 4, 0), ("3", "9b", 5, 4, 0), ("11", "4w", 7, 4, 0), ("8", "9", 11, 5, 0), ("9", "8", 11, 5, 0)):
            K(l, r, p, x, d)
        for k, (l, r) in enumerate((("16", "3"), ("4", "20"), ("22", "16b"), ("18", "1"), ("2", "16"), ("24", "5"), ("3s", "22"), ("9", "20"), ("20", "3b"),
                                    ("22w", "7"), ("7", "24"))):
            K(l, r, 1000 + (7, 9, 30)[k % 3], (1, 100, 0, 1)[k % 4] if SH[l][2] * SH[r][2] < 100 else 1)
        K("e", "4", 0, 2, 0, ())
        K("4", "e", 0, 2, 0, ())
        if T:
            for l in ("3", "5", "8", "9", "11", "12", "14"):
                for r in ("1", "3b", "6", "9b", "7", "12"):
                    a, b = SH[l][2], SH[r][2]
                    K(l, r, max(1, a * b // 9), 6, (a + b) % 3)
            for l in ("16", "20", "22", "24", "18"):
                for r in ("2", "7", "16b", "9b"):
                    K(l, r, 1009, 1)
                    K(r, l, 1030, 100 if SH[l][2] * SH[r][2] < 200 else 1)
    if prop == "C27":
        for kind in range(10):
            for mx, mn, n, s, g, rm in ((2, 1, 4, 2, 1, 0), (3, 1, 4, 5, 2, 0), (2, 1, 5, 4, 1, 2), (4, 2, 5, 5, 1, 0), (2, 1, 4, 3, 1, 0)):
                once(kind, mx, mn, n, s, g, rm)
            if kind < 2:
                once(kind, 2, 1, 8, 4)
                once(kind, 4, 2, 9, 5, 2)
                once(kind, 3, 1, 9, 9, 2, 17)
            once(kind, 2, 1, 0, need=())
            for i, (mx, mn, n, s) in enumerate(FEW):
                if (T or (i + kind) % 4 == 0) and (kind < 2 or n <= 34):
                    once(kind, mx, mn, n, s, 1 + (i + kind) % 2, 0, (2, 5, 40)[i % 3])
            if T:
                for s in (0, 4, 5):
                    once(kind, 2, 1, 5, s, 2)
                once(kind, 4, 2, 6, 5)
    return js


def jobs(prop, tier):
    return more_jobs(prop, tier) + hist_jobs(prop, tier) + query_jobs(prop, tier) + join_jobs(prop, tier) + own_jobs(prop, tier) + geom_jobs(prop, tier)
