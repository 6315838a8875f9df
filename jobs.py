"""Which harness entries, configurations and bounds decide which property."""


class Job:
    def __init__(self, harness, entry, defs="", params=None, thorough=None, tier=("quick", "thorough"), covers=(), time=200, cost=1, optional=None, validate=True, xcheck=False):
        self.harness, self.entry, self.defs = harness, entry, defs.split()
        self.params, self.thorough = params or {}, thorough or {}
        self.tier, self.covers, self.time, self.cost = tier, list(covers), time, cost
        self.optional, self.validate, self.xcheck = optional, validate, xcheck

    def p(self, tier):
        d = dict(self.params)
        if tier == "thorough": d.update(self.thorough)
        return d


Q = ("quick", "thorough")
TH = ("thorough",)


def cfg(seg, base=3, elem=0, alloc=0, extra=""):
    return ("-DSEGN=%d -DBASEN=%d -DELEM=%d -DALLOC=%d %s" % (seg, base, elem, alloc, extra)).strip()


PROPS = {}


def prop(pid, bounds, jobs, outside="", assumptions=()):
    PROPS[pid] = {"bounds": bounds, "jobs": jobs, "outside": outside, "assumptions": list(assumptions)}


def each(harness, entry, cfgs, params, thorough, covers, **k):
    return [Job(harness, entry, c, params, thorough, covers=covers, xcheck=(i == 0), **k) for i, c in enumerate(cfgs)]


TREES = ("trees: 6 building histories (append, prepend, middle, scattered, grow-and-thin, fill-and-thin) of 0..n elements with arbitrary 64-bit values; "
         "node capacities 1..4 elements per segment x 3..5 children per node unless a job's config says otherwise; ")
OUT = ("larger trees than n, other node capacities, element types other than 8-byte integers / a tracked class / a trivial struct; "
       "allocators with fancy pointers; element types with throwing moves; more than 65535 children per node")

# small-capacity configurations: every structural case appears with few elements
PLAIN = [cfg(1), cfg(2), cfg(3), cfg(4, 4)]
TRACK = [cfg(2, 4, 1, 1), cfg(3, 3, 1, 1), cfg(1, 5, 1, 1)]
ODD = [cfg(2, 3, 0, 0, "-DSEGEXTRA=5 -DBASEEXTRA=9"), cfg(0, 0), cfg(3, 4, 2, 2)]
BIG = [cfg(128, 47, 0, 0, "-DDEFAULT_TARGETS -DMAXN=420")]

# other configurations: narrow size_type, class pointers that break when copied bytewise, one-byte elements, wide nodes
ALIEN = [cfg(2, 3, 0, 3), cfg(1, 4, 1, 4), cfg(3, 3, 2, 4), cfg(2, 3, 6), cfg(3, 3, 1, 1, "-DAMP"), cfg(3, 3, 8), cfg(2, 3, 9)]
BYTES = [cfg(512, 31, 3, 0, "-DMAXN=700")]
WIDE = [cfg(1, 31, 0, 1, "-DMAXN=700"), cfg(1, 32, 0, 1, "-DMAXN=700"), cfg(2, 6, 0, 1)]
HUGE = [cfg(1, 300, 0, 1, "-DMAXN=700")]
THIN = [cfg(1, 3, 0, 1), cfg(2, 3, 0, 1), cfg(3, 3, 0, 1), cfg(3, 4, 1, 1), cfg(4, 5, 0, 1), cfg(1, 6, 0, 1)]


def thin(kind, what, covers=("thin checked",), cut=0):
    """edits of trees with arbitrary block fillings"""
    js = []
    for c, n, th in zip(THIN, ((6, 24), (10, 14), (10, 16), (10, 16), (12, 20), (12, 26)), ((25, 40), (10, 18), (10, 22), (10, 22), (12, 30), (27, 50))):
        js.append(Job("single", "h_thin", c, {"kind": kind, "what": what, "nmin": n[0], "n": max(n[0], n[1] - cut * (n[1] - n[0]) // 4), "blocks": 3}, {"n": th[1], "blocks": 4}, covers=list(covers), cost=3))
    for c, n in ((THIN[1], 9), (THIN[2], 10)):
        js.append(Job("single", "h_thin", c, {"kind": kind, "what": what, "nmin": 7, "n": n, "blocks": 3, "steps": 2}, {"n": n + 3, "blocks": 4}, covers=list(covers), cost=3))
    return js


def far(kinds, cover="far checked", wide=True):
    """large sequences: thousands of elements, hundreds of children, the default configuration with several levels"""
    js = []
    for lo, hi in kinds:
        k = {"kind_lo": lo, "kind_hi": hi}
        js += each("far", "h_far", [cfg(1), cfg(2, 4, 1, 1), cfg(3, 7)], dict(k, n=2500), dict(k, n=12000, radius=3), [cover])
        js += each("far", "h_far", ["-DSEGN=128 -DBASEN=47 -DDEFAULT_TARGETS"], dict(k, n=12000, how_hi=1, run=150), dict(k, n=75000, run=400), [cover], cost=2)
        if wide:
            js += each("far", "h_far", [cfg(1, 280)], dict(k, n=37000, how_hi=0, radius=1), dict(k, n=37000, how_hi=0, radius=4), [cover], cost=4)
    return js


def vast(lo, hi, cover="vast checked"):
    """single operations on more than 65535 elements"""
    k = {"kind_lo": lo, "kind_hi": hi, "max_steps": 400000000}
    return (each("far", "h_vast", ["-DSEGN=128 -DBASEN=47 -DDEFAULT_TARGETS"], dict(k, n=300, c=66000), dict(k, n=70000, c=140000), [cover], cost=4) +
            each("far", "h_vast", [cfg(7, 300)], dict(k, n=300, c=66000), dict(k, n=2000, c=132000), [cover], cost=4) +
            each("far", "h_vast", [cfg(2, 5, 1, 1)], dict(k, n=40, c=1200), dict(k, n=90, c=9000), [cover], cost=2))


# ------------------------------------------------------------------ S01 / S02 / S07 single edits
prop("S01", TREES + "every insertion point (symbolic), all nine insertion members, emplace with no, one and two arguments; every history of 2..3 edits; trees whose blocks are thinned arbitrarily; segments of 512 one-byte elements, nodes of 31, 32 and 300 children; sequences of 2500..37000 elements (default configuration, nodes of 280 children) with positions in 9 windows",
     each("single", "h_insert", PLAIN + TRACK, {"n": 40}, {"n": 70}, ["insert checked"], cost=3) +
     each("single", "h_insert", ODD + ALIEN, {"n": 24}, {"n": 50}, ["insert checked"]) +
     each("single", "h_insert", BIG, {"nmin": 127, "n": 130}, {"nmin": 124, "n": 260}, ["insert checked"], cost=3) +
     each("single", "h_insert", BYTES, {"nmin": 511, "n": 513, "shape_hi": 0}, {"nmin": 510, "n": 514, "shape_hi": 1}, ["insert checked"], cost=3) +
     each("single", "h_insert", WIDE, {"nmin": 30, "n": 34, "shape_hi": 2}, {"nmin": 30, "n": 66}, ["insert checked"], cost=2) +
     each("single", "h_insert", HUGE, {"nmin": 299, "n": 301, "shape_hi": 0, "kind_hi": 1}, {"nmin": 255, "n": 302, "shape_hi": 1, "kind_hi": 1}, ["insert checked"], cost=4) +
     each("single", "h_emplace", [cfg(1, 3, 1), cfg(2, 4, 1), cfg(3, 3, 1)], {"n": 16}, {"n": 30}, ["emplace checked"]) +
     thin(0, 1) +
     each("single", "h_history", [cfg(2), cfg(1, 3, 1, 1), cfg(3, 4)], {"n": 10, "steps": 2}, {"n": 15, "steps": 2}, ["history checked"], cost=2) +
     each("single", "h_history", [cfg(2), cfg(1, 3, 1, 1)], {"n": 4, "steps": 3}, {"n": 11, "steps": 3}, ["history checked"], cost=2) +
     far([(3, 3)]), OUT)
prop("S02", TREES + "every erasable position (symbolic), erase, pop_front, pop_back; every history of 2..3 edits; trees whose blocks are thinned arbitrarily; segments of 512 one-byte elements, nodes of 31, 32 and 300 children; sequences of 2500..37000 elements (default configuration, nodes of 280 children) with positions in 9 windows",
     each("single", "h_erase", PLAIN + TRACK, {"n": 50}, {"n": 90}, ["erase checked"], cost=3) +
     each("single", "h_erase", ODD + ALIEN, {"n": 30}, {"n": 60}, ["erase checked"]) +
     each("single", "h_erase", BIG, {"nmin": 126, "n": 130}, {"nmin": 124, "n": 260}, ["erase checked"], cost=3) +
     each("single", "h_erase", BYTES, {"nmin": 513, "n": 514, "shape_hi": 0}, {"nmin": 510, "n": 514, "shape_hi": 1}, ["erase checked"], cost=3) +
     each("single", "h_erase", WIDE, {"nmin": 30, "n": 36, "shape_hi": 2}, {"nmin": 30, "n": 66}, ["erase checked"], cost=2) +
     each("single", "h_erase", HUGE, {"nmin": 300, "n": 302, "shape_hi": 0}, {"nmin": 255, "n": 302, "shape_hi": 1}, ["erase checked"], cost=4) +
     thin(1, 1) +
     each("single", "h_history", [cfg(3), cfg(2, 4, 1, 1), cfg(1)], {"n": 10, "steps": 2}, {"n": 15, "steps": 2}, ["history checked"], cost=2) +
     each("single", "h_history", [cfg(3), cfg(1)], {"n": 4, "steps": 3}, {"n": 11, "steps": 3}, ["history checked"], cost=2) +
     far([(4, 4)]) + far([(7, 7)], wide=False), OUT)
prop("S07", TREES + "chains of 2..3 edits through returned iterators (also those of counted, range and list insertions and range erasures), then stepping to both ends, one jump to any position, block exposure and comparison; edits of trees whose blocks are thinned arbitrarily; sequences of 2500..37000 elements (default configuration, nodes of 280 children) with positions in 9 windows",
     each("single", "h_chain", [cfg(1), cfg(2), cfg(3), cfg(2, 4, 1, 1), cfg(4, 4)], {"n": 6, "steps": 2}, {"n": 8, "steps": 3}, ["chain checked"], cost=3) +
     each("single", "h_chain", [cfg(1), cfg(2), cfg(2, 4, 1, 1), cfg(1, 5)], {"n": 18, "nmin": 7, "steps": 1}, {"n": 34, "nmin": 7, "steps": 1}, ["chain checked"], cost=3) +
     each("single", "h_chain_bulk", [cfg(1), cfg(2), cfg(4, 4, 1, 1), cfg(8)], {"n": 5, "c": 4}, {"n": 12, "c": 9}, ["bulk chain checked"], cost=3) +
     each("single", "h_chain_bulk", [cfg(6), cfg(7, 3, 1, 1)], {"nmin": 6, "n": 14, "c": 3, "shape_hi": 1}, {"nmin": 6, "n": 24, "c": 6}, ["bulk chain checked"], cost=3) +
     thin(2, 2, cut=3) +
     far([(5, 5)]), OUT)

# ------------------------------------------------------------------ S03 / S23 bulk edits
_bulk = PLAIN + TRACK[:2]
prop("S03", TREES + "every bulk member (insert of a value/count/range/list, range erase, assign, resize, clear, constructors), every position and range, counts up to 6 (up to 40 from small trees); sequences of 2 bulk edits from small trees; operations on 66000 elements at a time",
     each("bulk", "h_bulk", _bulk, {"n": 13, "c": 6}, {"n": 20, "c": 9}, ["bulk edit checked"], cost=2) +
     each("bulk", "h_bulk", ODD + ALIEN, {"n": 7, "c": 5}, {"n": 12, "c": 6}, ["bulk edit checked"]) +
     each("bulk", "h_bulk", [cfg(1), cfg(2, 3, 1, 1)], {"n": 22, "nmin": 14, "c": 3, "shape_hi": 2}, {"n": 34, "nmin": 14, "c": 5}, ["bulk edit checked"], cost=3) +
     each("bulk", "h_bulk", [cfg(1), cfg(2, 3, 1, 1), cfg(3, 4)], {"n": 3, "c": 40, "shape_hi": 0}, {"n": 4, "c": 80, "shape_hi": 1}, ["bulk edit checked"], cost=3) +
     each("bulk", "h_bulk", BIG, {"nmin": 127, "n": 129, "c": 2, "shape_hi": 0, "kind_hi": 4}, {"nmin": 126, "n": 131, "c": 66}, ["bulk edit checked"], cost=3) +
     each("bulk", "h_bulk", [cfg(2), cfg(1, 3, 1, 1)], {"n": 3, "c": 2, "steps": 2, "shape_hi": 1}, {"n": 5, "c": 3, "steps": 2, "shape_hi": 2}, ["bulk edit checked"], cost=4) +
     each("ranges", "h_ranges", [cfg(2), cfg(1, 3, 1, 1), cfg(3, 4, 3), cfg(2, 3, 9), cfg(4, 5, 8), cfg(2, 3, 0, 3), cfg(2, 3, 6)], {"n": 4, "c": 6}, {"n": 8, "c": 12}, ["range edit checked"], cost=2) +
     each("ranges", "h_ranges", BIG[:1], {"n": 1, "c": 130, "cmin": 127, "shape_hi": 0}, {"n": 2, "c": 150, "cmin": 126, "shape_hi": 0}, ["range edit checked"], cost=2) +
     each("bulk", "h_ctor", _bulk + ODD + ALIEN, {"c": 40}, {"c": 90}, []) +
     each("bulk", "h_ctor", BIG + BYTES, {"cmin": 126, "c": 130}, {"c": 140}, []) +
     vast(0, 4), OUT)
prop("S23", "source ranges of 0..c elements with arbitrary values read through a recording single-pass iterator; " + TREES + "every target position",
     each("bulk", "h_input", _bulk, {"n": 12, "c": 12}, {"n": 20, "c": 20}, [], cost=2) +
     each("bulk", "h_input", [cfg(1), cfg(2, 3, 1, 1)], {"n": 4, "c": 40, "shape_hi": 1}, {"n": 6, "c": 90}, [], cost=2) +
     each("bulk", "h_input", [cfg(1), cfg(2, 3, 1, 1)], {"nmin": 20, "n": 36, "c": 6, "shape_hi": 2}, {"nmin": 20, "n": 60, "c": 8}, [], cost=2) +
     each("bulk", "h_input_ctor", _bulk + ODD + ALIEN, {"c": 60}, {"c": 120}, []), OUT)

# ------------------------------------------------------------------ S04 / S05 / S06 access
prop("S04", TREES + "every index (in range, size and beyond) and every route to it; sequences of 2500..37000 elements (default configuration, nodes of 280 children) with positions in 9 windows",
     each("access", "h_access", PLAIN + TRACK, {"n": 36}, {"n": 64}, ["access checked", "past the end"]) +
     each("access", "h_access", ODD + ALIEN, {"n": 24}, {"n": 48}, ["access checked", "past the end"]) +
     each("access", "h_access", WIDE, {"nmin": 30, "n": 36, "shape_hi": 1}, {"nmin": 30, "n": 70}, ["access checked", "past the end"]) +
     each("access", "h_access", BYTES, {"nmin": 513, "n": 513, "shape_hi": 0}, {"nmin": 511, "n": 514, "shape_hi": 1}, ["access checked", "past the end"]) +
     each("access", "h_access", HUGE, {"nmin": 301, "n": 301, "shape_hi": 0}, {"nmin": 299, "n": 302, "shape_hi": 1}, ["access checked", "past the end"], cost=4) +
     each("access", "h_access", BIG, {"nmin": 127, "n": 130}, {"nmin": 124, "n": 260}, ["access checked"]) +
     far([(0, 1), (6, 6)]), OUT)
prop("S05", TREES + "every pair of positions (symbolic), every arithmetic, difference and comparison operator of iterator, const_iterator, reverse_iterator; sequences of 2500..37000 elements (default configuration, nodes of 280 children) with positions in 9 windows; operations on 66000 elements at a time",
     each("access", "h_arith", [cfg(1), cfg(2), cfg(3, 4, 1, 1), cfg(2, 3, 0, 0, "-DSEGEXTRA=5 -DBASEEXTRA=9")], {"n": 8}, {"n": 13}, ["arithmetic checked"], cost=5) +
     each("access", "h_arith", [cfg(2, 3, 0, 3), cfg(1, 4, 1, 4)], {"n": 6}, {"n": 10}, ["arithmetic checked"], cost=5) +
     each("access", "h_arith", [cfg(1), cfg(2, 5)], {"nmin": 12, "n": 14, "shape_lo": 2, "shape_hi": 3}, {"nmin": 14, "n": 22, "shape_lo": 2, "shape_hi": 3}, ["arithmetic checked"], cost=5) +
     each("access", "h_arith", [cfg(1), cfg(2)], {"nmin": 28, "n": 28, "shape_lo": 2, "shape_hi": 2}, {"nmin": 40, "n": 40, "shape_lo": 2, "shape_hi": 3}, ["arithmetic checked"], cost=5) +
     each("access", "h_arith", BIG, {"nmin": 130, "n": 130, "shape_lo": 0, "shape_hi": 0}, {"nmin": 130, "n": 260, "shape_lo": 0, "shape_hi": 2}, ["arithmetic checked"], cost=5) +
     far([(2, 2)]) +
     vast(8, 8), OUT)
prop("S06", TREES + "every position's block, both traversal directions, every jump distance that stays inside; operations on 66000 elements at a time",
     each("access", "h_blocks", PLAIN + TRACK + ODD + ALIEN, {"n": 40}, {"n": 70}, ["blocks checked"]) +
     each("access", "h_blocks", WIDE, {"nmin": 30, "n": 36, "shape_hi": 1}, {"nmin": 30, "n": 66}, ["blocks checked"]) +
     each("access", "h_blocks", BIG, {"nmin": 127, "n": 130}, {"nmin": 124, "n": 260}, ["blocks checked"]) +
     each("access", "h_blocks", BYTES, {"nmin": 513, "n": 514, "shape_hi": 0}, {"nmin": 511, "n": 514, "shape_hi": 1}, ["blocks checked"]) +
     each("access", "h_jump", PLAIN + TRACK[:2] + ODD[:1] + ALIEN[:2], {"n": 15}, {"n": 24}, ["after checked", "before checked"], cost=2) +
     each("access", "h_jump", [cfg(1), cfg(2)], {"nmin": 28, "n": 28, "shape_lo": 1, "shape_hi": 4}, {"nmin": 36, "n": 40}, ["after checked", "before checked"], cost=3) +
     each("access", "h_jump", BIG, {"nmin": 130, "n": 130, "shape_hi": 0}, {"nmin": 128, "n": 260, "shape_hi": 1}, ["after checked", "before checked"], cost=3) +
     vast(8, 8), OUT)

# ------------------------------------------------------------------ S08 .. S12, S21
_res = [cfg(1, 3, 1, 1), cfg(2, 3, 1, 1), cfg(3, 4, 1, 1), cfg(4, 5, 1, 1), cfg(2, 3, 0, 2)]
prop("S08", TREES + "after building, after each of 2..3 arbitrary edits, after edits of trees whose blocks are thinned arbitrarily, and at every step of draining the sequence in 5 orders",
     each("resource", "h_balance", _res + [cfg(5, 6, 0, 1)], {"n": 18, "steps": 2}, {"n": 26, "steps": 2}, ["balance checked"], cost=2) +
     each("resource", "h_balance", [cfg(1, 3, 0, 1), cfg(2, 3, 0, 1), cfg(3, 4, 0, 1)], {"n": 8, "steps": 3}, {"n": 14, "steps": 3}, ["balance checked"], cost=3) +
     each("resource", "h_balance", WIDE[:2], {"nmin": 30, "n": 34, "steps": 1}, {"nmin": 30, "n": 70, "steps": 1}, ["balance checked"], cost=2) +
     thin(2, 4) +
     each("resource", "h_drain", _res + [cfg(5, 6, 0, 1)], {"n": 80}, {"n": 150}, ["drain checked"]), OUT)
_life = [cfg(1, 3, 1, 1), cfg(2, 3, 1, 1), cfg(3, 4, 1, 1), cfg(2, 3, 0, 1)]
_hook = [cfg(2, 3, 1, 2), cfg(1, 4, 1, 2)]
prop("S09", TREES + "38 kinds of operation (edits, bulk edits, assignments, every constructor, move, swap, splice, merge, sort, remove, unique, reverse, clear) with arbitrary positions and counts on a pair of sequences, then clear, reuse, destruction",
     each("resource", "h_life", _life, {"n": 8, "o": 4}, {"n": 12, "o": 5}, ["lifetimes checked"], cost=3) +
     each("resource", "h_life", _hook[:1] + [cfg(1, 4, 1, 4)], {"n": 6, "o": 3}, {"n": 9, "o": 4}, ["lifetimes checked"], cost=2) +
     each("resource", "h_life", [cfg(1, 3, 1, 1), cfg(2, 3, 1, 1)], {"n": 22, "nmin": 13, "o": 1, "kind_hi": 5, "shape_lo": 1, "shape_hi": 4}, {"n": 36, "nmin": 13, "o": 1, "kind_hi": 5}, ["lifetimes checked"], cost=3) +
     each("resource", "h_life", [cfg(1, 3, 1, 1)], {"n": 2, "o": 14, "shape_hi": 1, "kind_lo": 8}, {"n": 4, "o": 24, "shape_hi": 1, "kind_lo": 8}, ["lifetimes checked"], cost=3) +
     each("single", "h_erase", [cfg(1, 3, 1, 1), cfg(2, 4, 1, 1)], {"n": 44}, {"n": 70}, ["erase checked"], cost=2), OUT)
prop("S10", TREES + "the same operations with an element class that records construction, moves and destruction per address; every memory access of the code checked for bounds, liveness and initialisation",
     each("resource", "h_life", [cfg(2, 4, 1, 1), cfg(3, 3, 1, 1), cfg(1, 3, 1, 1)], {"n": 8, "o": 4}, {"n": 12, "o": 5}, ["lifetimes checked"], cost=3) +
     each("resource", "h_life", _hook, {"n": 6, "o": 3}, {"n": 9, "o": 4}, ["lifetimes checked"], cost=2) +
     each("resource", "h_life", [cfg(2, 3, 1, 1)], {"n": 2, "o": 1, "steps": 2, "shape_hi": 1}, {"n": 4, "o": 2, "steps": 2, "shape_hi": 2}, ["lifetimes checked"], cost=4) +
     each("resource", "h_life", [cfg(2, 3, 1, 1)], {"n": 2, "o": 14, "shape_hi": 1, "kind_lo": 8}, {"n": 4, "o": 24, "shape_hi": 1, "kind_lo": 8}, ["lifetimes checked"], cost=3) +
     each("single", "h_erase", [cfg(1, 3, 1, 1), cfg(2, 3, 1, 2), cfg(3, 4, 1, 1)], {"n": 40}, {"n": 70}, ["erase checked"], cost=2) +
     each("single", "h_insert", [cfg(1, 3, 1, 1), cfg(2, 3, 1, 2), cfg(3, 4, 1, 1)], {"n": 28}, {"n": 48}, ["insert checked"], cost=2) +
     [Job("single", "h_thin", cfg(2, 3, 1, 1), {"kind": 2, "what": 1, "nmin": 8, "n": 11, "blocks": 3}, {"n": 16}, covers=["thin checked"], cost=2)] +
     each("single", "h_history", [cfg(1)], {"n": 10, "steps": 2}, {"n": 14, "steps": 2}, ["history checked"], cost=2), OUT)


def failures(which, first, second, third):
    h, b = "h_strong_" + which, "h_basic_" + which
    return (each("resource", h, first, {"n": 20}, {"n": 34, "k": 9, "grow": 8}, ["failure injected", "no failure"], cost=3) +
            each("resource", h, first[:2], {"nmin": 24, "n": 44, "k": 7, "shape_hi": 1, "grow": 3}, {"nmin": 30, "n": 80, "k": 9, "grow": 8}, ["failure injected", "no failure"], cost=3) +
            each("resource", b, [cfg(1, 3, 1, 1), cfg(2, 3, 1, 1)], {"n": 5, "o": 3, "k": 6}, {"n": 8, "o": 4, "k": 10}, ["failure injected"], cost=5) +
            each("resource", b, [cfg(3, 4, 1, 1), cfg(2, 3, 1, 2)], {"n": 4, "o": 3, "k": 5}, {"n": 7, "o": 4, "k": 9}, ["failure injected"], cost=4) +
            each("resource", b, [second], {"n": 6, "nmin": 3, "o": 9, "k": 12, "kind_lo": 13, "kind_hi": 15, "shape_hi": 1}, {"n": 9, "o": 12, "k": 20, "kind_lo": 13, "kind_hi": 15}, ["failure injected"], cost=3) +
            each("resource", b, [second], {"n": 1, "o": 9, "k": 12, "kind_lo": 35, "kind_hi": 36, "shape_hi": 0}, {"n": 2, "o": 16, "k": 24, "kind_lo": 35, "kind_hi": 36, "shape_hi": 1}, ["failure injected"], cost=3) +
            each("resource", b, [third], {"n": 1, "o": 12, "k": 16, "kind_lo": 24, "kind_hi": 31, "shape_hi": 0}, {"n": 3, "o": 20, "k": 32, "kind_lo": 24, "kind_hi": 31, "shape_hi": 1}, ["failure injected"], cost=3) +
            each("resource", b, [second], {"n": 3, "o": 8, "k": 10, "kind_lo": 5, "kind_hi": 12, "shape_hi": 0}, {"n": 5, "o": 14, "k": 20, "kind_lo": 5, "kind_hi": 12, "shape_hi": 1}, ["failure injected"], cost=3) +
            each("resource", b, [third], {"n": 3, "o": 8, "k": 10, "kind_lo": 17, "kind_hi": 19, "shape_hi": 0}, {"n": 5, "o": 12, "k": 20, "kind_lo": 17, "kind_hi": 19, "shape_hi": 1}, ["failure injected"] if which == "alloc" else [], cost=3))


prop("S11", TREES + "the k-th allocation of the operation fails, k = 1..6 (up to 16 for larger operations): 8 single edits with the strong guarantee, 38 operations with the basic guarantee",
     failures("alloc", _life, cfg(1, 3, 1, 1), cfg(1, 3, 1, 1)), OUT)
prop("S12", TREES + "the k-th construction, copy or copy assignment of an element throws, k = 1..6 (up to 16 for larger operations): 8 single edits with the strong guarantee, 38 operations with the basic guarantee; moves do not throw",
     failures("throw", _life[:3], cfg(2, 3, 1, 1), cfg(2, 3, 1, 1)), OUT)
_cost = ["insertion cost", "erasure cost", "lookup cost", "release cost"]
prop("S21", TREES + "one insertion or erasure at every position, lookups, traversals and bulk release with counters on every element and allocator operation; trees of 600 elements (height 7..10) with every position, limit 20 x (height + 1) x node capacity on basic blocks and functions entered",
     each("resource", "h_cost", _res[:4] + [cfg(1, 5, 1, 1)], {"n": 24}, {"n": 40}, _cost, cost=2) +
     each("resource", "h_cost", [cfg(1, 3, 1, 1), cfg(2, 3, 1, 1)], {"nmin": 40, "n": 42, "shape_hi": 2, "what_hi": 1}, {"nmin": 60, "n": 80, "shape_hi": 2, "what_hi": 1}, _cost[:2], cost=2) +
     each("resource", "h_cost", [cfg(64, 31, 1, 1)], {"nmin": 64, "n": 66, "shape_hi": 1, "what_hi": 1}, {"nmin": 62, "n": 130, "shape_hi": 1}, _cost[:2], cost=2) +
     [Job("access", "h_work", cfg(1, 3), {"n": 600, "factor": 20, "per_element": 80, "kind_lo": i, "kind_hi": j}, {"n": 1500, "shape_hi": 2}, covers=["work checked"], cost=4) for i, j in ((0, 1), (2, 3), (4, 5), (6, 6), (7, 7), (8, 13))] +
     [Job("access", "h_work", c, {"n": n, "factor": 20, "per_element": 80}, {"n": 3 * n}, covers=["work checked"], cost=3) for c, n in ((cfg(2, 4, 1, 1), 200), (cfg(4, 6), 400))], OUT)

# ------------------------------------------------------------------ S13 .. S16 ownership
_own = [cfg(1, 3, 1, 1), cfg(2, 3, 1, 1), cfg(3, 4, 1, 1), cfg(2, 3, 0, 0)]
prop("S13", TREES + "copy construction, allocator-extended copy, copy assignment over a target of 0..t elements, self-assignment; then one arbitrary edit of either side; operations on 66000 elements at a time",
     each("own", "h_copy", _own, {"n": 14, "t": 6}, {"n": 22, "t": 8}, ["copy construction checked", "copy assignment checked", "extended copy checked", "self-assignment checked"], cost=3) +
     each("own", "h_copy", [cfg(1, 4, 1, 4), cfg(3, 3, 8), cfg(2, 3, 9)], {"n": 9, "t": 3}, {"n": 16, "t": 4}, ["copy construction checked", "copy assignment checked", "extended copy checked", "self-assignment checked"], cost=2) +
     each("own", "h_copy", _own[:2], {"n": 4, "t": 24, "shape_hi": 1}, {"n": 8, "t": 40}, ["copy assignment checked"], cost=2) +
     each("own", "h_copy", [BIG[0]], {"nmin": 128, "n": 129, "t": 2, "shape_hi": 1}, {"nmin": 127, "n": 260, "t": 3}, ["copy construction checked"], cost=2) +
     vast(5, 5), OUT)
prop("S14", TREES + "containers (std::vector and a sequence) of up to 9 sequences; move construction, allocator-extended move, move assignment, swap, self-move, self-swap with a kept iterator; then arbitrary edits of both sides; operations on 66000 elements at a time",
     each("own", "h_move", [cfg(1, 3, 1, 1), cfg(2, 3, 1, 1), cfg(3, 4, 1, 1)], {"n": 7, "t": 4}, {"n": 13, "t": 5}, ["move construction checked", "move assignment checked", "swap checked", "self-move checked"], cost=3) +
     each("own", "h_move", [cfg(2, 3, 0, 0), cfg(2, 3, 1, 1, "-DPROP_MOVE=1 -DPROP_SWAP=1")], {"n": 6, "t": 3}, {"n": 11, "t": 4}, ["move construction checked", "move assignment checked", "swap checked", "self-move checked"]) +
     each("own", "h_nested", [cfg(1, 3, 1, 1), cfg(2, 3, 1, 1, "-DPROP_MOVE=1 -DPROP_SWAP=1"), cfg(2, 3, 1, 0, "-DMAYTHROW"), cfg(2, 3, 0, 4)], {"n": 8}, {"n": 16}, ["containers of sequences checked"]) +
     each("own", "h_move", [cfg(1, 4, 1, 4)], {"n": 4, "t": 2}, {"n": 9, "t": 3}, ["move construction checked", "move assignment checked", "swap checked", "self-move checked"], cost=2) +
     each("own", "h_move", [cfg(1, 3, 1, 1)], {"nmin": 2, "n": 3, "t": 14, "shape_hi": 0}, {"n": 4, "t": 14, "shape_hi": 1}, ["move assignment checked", "swap checked"], cost=2) +
     [j for c in (" -DPROP_COPY=0 -DPROP_MOVE=0 -DPROP_SWAP=1", " -DPROP_COPY=1 -DPROP_MOVE=1 -DPROP_SWAP=0") for k in ((2, 3), (5, 6)) for j in
      each("own", "h_alloc_owner", [cfg(2, 3, 1, 1, c)], {"n": 6, "kind_lo": k[0], "kind_hi": k[1]}, {"n": 12, "kind_lo": k[0], "kind_hi": k[1]}, ["extended move" if k[0] == 2 else "swap"])] +
     vast(5, 5), OUT)
_combos = [cfg(2, 3, 1, 1, "-DPROP_COPY=%d -DPROP_MOVE=%d -DPROP_SWAP=%d%s" % (c, m, s, " -DSELECT_STEP=2" if (c + m + s) % 2 else "")) for c in (0, 1) for m in (0, 1) for s in (0, 1)]
prop("S15", TREES + "all 8 propagation-trait combinations, equal and unequal allocators, 10 kinds of transfer (every constructor form, assignments, swap, splice, chains), an allocator that checks every release against its own identity",
     each("own", "h_alloc_owner", _combos, {"n": 9}, {"n": 14}, ["copy construction", "extended copy", "move construction", "extended move", "assignment", "swap", "constructors", "splice", "chain"], cost=2) +
     each("own", "h_alloc_owner", [cfg(1, 3, 0, 1, "-DPROP_COPY=1"), cfg(1, 3, 1, 2, "-DPROP_MOVE=1 -DSELECT_STEP=2")], {"n": 10}, {"n": 14}, ["assignment"]), OUT)
prop("S16", "pairs of sequences of 0..n elements each, arbitrary values, 3 building orders, all six operators; operations on 66000 elements at a time",
     each("own", "h_compare", [cfg(2), cfg(1, 3, 1, 0), cfg(3, 4)], {"n": 5}, {"n": 6}, ["comparison checked"], cost=3) +
     each("own", "h_compare", [cfg(2, 3, 6), cfg(1, 3, 7)], {"n": 4, "bits": 10}, {"n": 6, "bits": 12}, ["comparison checked"], cost=3) +
     each("own", "h_compare_long", [cfg(2, 3, 6), cfg(2, 3, 7)], {"n": 16}, {"n": 50}, ["long comparison checked"], cost=2) +
     each("own", "h_compare", [cfg(1), cfg(2)], {"n": 6, "bits": 8}, {"n": 7, "bits": 8}, ["comparison checked"], cost=3) +
     each("own", "h_compare_long", [cfg(1), cfg(2, 3, 1, 1)], {"n": 26}, {"n": 60}, ["long comparison checked"], cost=3) +
     each("own", "h_compare_long", BIG, {"nmin": 127, "n": 130}, {"nmin": 126, "n": 260}, ["long comparison checked"], cost=3) +
     vast(4, 4), OUT)

# ------------------------------------------------------------------ S17 .. S20 algorithms
prop("S17", "sort: 0..n elements with arbitrary 16-bit keys, 3 building orders, up and down comparators and operator<; merge: every pair of sorted sequences of 0..n and 0..k elements; larger sizes with two-valued keys; sizes 15..34 (thorough 70) with fixed key patterns and two arbitrary keys; operations on 66000 elements at a time",
     each("algo", "h_sort", [cfg(2, 3, 1, 1), cfg(1), cfg(3, 4)], {"n": 5}, {"n": 6}, ["sort checked"], cost=5) +
     each("algo", "h_sort", [cfg(2), cfg(1, 3, 1, 1)], {"nmin": 5, "n": 9, "bits": 1}, {"nmin": 5, "n": 12, "bits": 1}, ["sort checked"], cost=4) +
     each("algo", "h_sort_long", [cfg(2, 3, 1, 1), BIG[0]], {"nmin": 15, "n": 34}, {"nmin": 15, "n": 70}, ["long sort checked"], cost=3) +
     each("algo", "h_sort", [cfg(2, 3, 6)], {"n": 4}, {"n": 5}, ["sort checked"], cost=3) +
     each("algo", "h_merge", [cfg(2, 3, 6)], {"n": 3, "k": 3}, {"n": 4, "k": 4}, ["merge checked"], cost=3) +
     each("algo", "h_sort_long", [cfg(3)], {"nmin": 65, "n": 66}, {"nmin": 65, "n": 90}, ["long sort checked"], cost=3) +
     each("algo", "h_merge_long", [cfg(2, 3, 1, 1), cfg(3, 4)], {"n": 18}, {"n": 36}, ["long merge checked"], cost=3) +
     each("algo", "h_merge_long", [cfg(2, 3, 1, 1)], {"nmin": 30, "n": 32}, {"nmin": 60, "n": 66}, ["long merge checked"], cost=3) +
     each("algo", "h_sort", [cfg(2)], {"nmin": 16, "n": 18, "bits": 1, "how": 0}, {}, ["sort checked"], cost=3, tier=TH) +
     each("algo", "h_merge", [cfg(2, 3, 1, 1), cfg(1)], {"n": 4, "k": 4}, {"n": 5, "k": 5}, ["merge checked"], cost=4) +
     each("algo", "h_merge", [cfg(2, 3, 1, 1)], {"n": 6, "k": 6, "bits": 1}, {"n": 8, "k": 8, "bits": 1}, ["merge checked"], cost=3) +
     vast(9, 9), OUT)
_alg = [cfg(1, 3, 1, 1), cfg(2, 3, 1, 1), cfg(3, 4, 1, 1), cfg(2)]
prop("S18", TREES + "sources of 0..bn elements; whole, single-element and range splice, lvalue and rvalue source, every target position and source range; operations on 66000 elements at a time",
     each("algo", "h_splice", _alg, {"n": 8, "bn": 5}, {"n": 12, "bn": 8}, ["splice checked"], cost=3) +
     each("algo", "h_splice", [cfg(1, 4, 1, 4), cfg(2, 3, 0, 3)], {"n": 4, "bn": 4}, {"n": 8, "bn": 6}, ["splice checked"], cost=3) +
     each("algo", "h_splice", _alg[:2], {"n": 3, "bn": 18, "shape_hi": 0, "bshape_hi": 0}, {"n": 4, "bn": 30, "shape_hi": 1, "bshape_hi": 1}, ["splice checked"], cost=3) +
     each("algo", "h_splice", _alg[:2], {"nmin": 20, "n": 24, "bn": 3, "shape_hi": 2, "bshape_hi": 0}, {"nmin": 20, "n": 40, "bn": 4}, ["splice checked"], cost=3) +
     vast(6, 6), OUT)
prop("S19", TREES + "every outcome of the predicate, equality or relation over arbitrary element values; operations on 66000 elements at a time",
     each("algo", "h_remove", _alg, {"n": 9}, {"n": 12}, ["remove checked"], cost=4) +
     each("algo", "h_remove", [cfg(2, 3, 0, 3), cfg(1, 4, 1, 4), cfg(2, 3, 6), cfg(2, 3, 7)], {"n": 6}, {"n": 8}, ["remove checked"], cost=2) +
     each("algo", "h_remove_long", _alg[:2] + [cfg(2, 3, 7)] + BIG, {"nmin": 12, "n": 40}, {"nmin": 12, "n": 90}, ["long remove checked"], cost=2) +
     vast(7, 7), OUT)
prop("S20", TREES + "every element of the sequence as the argument, every insertion position, 12 members",
     each("algo", "h_alias", _alg, {"n": 7, "c": 3}, {"n": 14, "c": 5}, ["alias checked"], cost=3) +
     each("algo", "h_alias", [cfg(4, 4, 1, 1)], {"n": 7, "c": 3}, {"n": 12, "c": 6}, ["alias checked"], cost=3) +
     each("algo", "h_alias", [cfg(1, 4, 1, 4)], {"n": 5, "c": 2}, {"n": 9, "c": 4}, ["alias checked"], cost=3) +
     each("algo", "h_alias", _alg[1:2], {"nmin": 18, "n": 18, "c": 2, "shape_lo": 2, "shape_hi": 2, "kind_hi": 8}, {"nmin": 18, "n": 30, "c": 3, "kind_hi": 8}, ["alias checked"], cost=3), OUT)

# ------------------------------------------------------------------ S22, S24, S25
prop("S22", "4 instantiations in lock step (bytewise, element-wise, construct hook on trivial elements, full hooks); 0..n elements built in 3 orders, then every one of 25 operations with arbitrary arguments, once (twice from small trees)",
     each("equiv", "h_equiv", ["-DSEGN=%d -DBASEN=%d" % x for x in ((1, 3), (2, 3), (3, 4), (4, 3))], {"n": 13, "kind_hi": 15}, {"n": 22, "kind_hi": 15}, ["equivalence checked"], cost=2) +
     each("equiv", "h_equiv", ["-DSEGN=%d -DBASEN=%d" % x for x in ((1, 3), (2, 3))], {"n": 4, "steps": 2, "kind_hi": 15}, {"n": 6, "steps": 2, "kind_hi": 15}, ["equivalence checked"], cost=4) +
     each("equiv", "h_equiv", ["-DSEGN=%d -DBASEN=%d" % x for x in ((1, 3), (2, 3), (3, 4), (4, 3))], {"n": 7, "kind_lo": 16}, {"n": 11, "kind_lo": 16, "sort": 4}, ["equivalence checked"], cost=2) +
     each("equiv", "h_equiv", ["-DSEGN=%d -DBASEN=%d" % x for x in ((1, 3), (2, 3))], {"n": 2, "steps": 2, "kind_lo": 16}, {"n": 4, "steps": 2}, ["equivalence checked"], cost=4), OUT)
prop("S24", TREES + "every observer with arbitrary arguments while every store to a heap block that existed before is a violation (the sequence object lives on the heap); read-only code has no shared writes, so interleavings cannot matter",
     each("readonly", "h_readonly", [cfg(1), cfg(2, 3, 1, 1), cfg(3, 4, 2), cfg(2)], {"n": 20}, {"n": 34}, ["observers checked"]), OUT + "; thread-local data, atomic writes")
prop("S25", "bounded_rand: every output of 8/16/32/64-bit generators, bounds 1..k and 2^i-1, 2^i, 2^i+1, result type at least as wide as the generator's; accumulate: 0..n elements with arbitrary values, strides 1..d; drivers: every valid edit list of 1..n entries; data generators with arbitrary generator outputs",
     [Job("helpers", "h_bounded", cfg(2), {"lo": i, "hi": i, "k": 300}, {"k": 2500}, covers=["bounded checked"], xcheck=(i == 1)) for i in range(6)] +
     [Job("helpers", "h_bounded_any", cfg(2), {"bits": 12}, {"bits": 16}, covers=["any bound checked"])] +
     each("helpers", "h_accumulate", [cfg(1), cfg(2)], {"n": 24, "d": 9}, {"n": 48, "d": 14}, ["accumulate checked"]) +
     each("helpers", "h_drivers", [cfg(1), cfg(2)], {"n": 6, "size": 2}, {"n": 7, "size": 3}, ["drivers checked"], cost=2) +
     each("helpers", "h_data", [cfg(2)], {"n": 4}, {"n": 5}, ["data checked"]),
     "generators whose result type is wider than the bound's type; the statistical quality of the real generators (they are stubs with arbitrary outputs)",
     ["boost::random and boost::crc are replaced by stubs with arbitrary outputs (harness/stubs)"])

# ------------------------------------------------------------------ S26 .. S28
prop("S26", "trees of 200..300 elements (3 building histories, height up to 9), every position, counts 0, 1, 7, 40; basic blocks and functions entered against factor 20 x documented complexity; comparisons of sort and merge for 4 + 3 value patterns; 13 linear operations: the cost per element at 4096 elements (thorough 20000) is at most 1.5 times that at 128",
     [Job("user", "h_bulk_work", c, {"n": n, "factor": 20, "per_element": pe, "kind_lo": i, "kind_hi": j}, {"n": 2 * n}, covers=["bulk work checked"], cost=4)
      for c, n, pe in ((cfg(1), 300, 100), (cfg(2, 3, 1, 1), 220, 150), (cfg(4, 6), 300, 100)) for i, j in ((0, 1), (2, 2), (3, 4), (5, 17))] +
     each("user", "h_growth", [cfg(1), cfg(2, 3, 1, 1), cfg(3, 5), cfg(1, 64), cfg(2, 300)], {"n1": 128, "n2": 4096}, {"n1": 150, "n2": 20000}, ["growth checked"]),
     OUT + "; counts above 40; constants of the cost")
_cb = [cfg(1, 3, 1, 1), cfg(2, 3, 1, 1), cfg(3, 4, 1, 1)]
prop("S27", TREES + "14 operations whose predicate, comparator, element comparison or single-pass iterator throws at its k-th call, k = 1..8 (12 for long iterators), arbitrary element values",
     each("user", "h_callback", _cb, {"n": 5, "o": 3, "c": 4, "k": 8}, {"n": 7, "o": 4, "c": 8, "k": 14}, ["callback threw", "callback did not throw"], cost=3) +
     each("user", "h_callback", _cb[:2] + [cfg(2, 3, 1, 2)], {"nmin": 6, "n": 9, "k": 9, "kind_hi": 1}, {"nmin": 6, "n": 13, "k": 14, "kind_hi": 1}, ["callback threw"], cost=3) +
     each("user", "h_callback", _cb[:2], {"nmin": 6, "n": 14, "c": 4, "k": 14, "kind_lo": 5, "kind_hi": 6}, {"nmin": 6, "n": 30, "c": 10, "k": 32, "kind_lo": 5, "kind_hi": 6}, ["callback threw", "callback did not throw"], cost=3) +
     each("user", "h_callback", _cb[:2], {"n": 3, "c": 18, "k": 56, "shape_hi": 0, "kind_lo": 5, "kind_hi": 8}, {"n": 4, "c": 40, "k": 122, "shape_hi": 1, "kind_lo": 5, "kind_hi": 8}, ["callback threw", "callback did not throw"], cost=3),
     OUT + "; callbacks that modify the sequence")
prop("S28", TREES + "every position, 16 routes to an element (indexing, checked access, nth, iterator arithmetic, reverse iterators, block pointers, front/back/penultimate), every written value; sort and reverse with kept iterators",
     each("user", "h_handles", PLAIN + TRACK, {"n": 18, "sort": 4}, {"n": 34, "sort": 5}, ["handles checked"], cost=2) +
     each("user", "h_handles", ODD + ALIEN, {"n": 12, "sort": 3}, {"n": 24, "sort": 4}, ["handles checked"], cost=2) +
     each("user", "h_handles", BIG, {"nmin": 127, "n": 130, "kind_hi": 13, "shape_hi": 1}, {"nmin": 126, "n": 260, "kind_hi": 13}, ["handles checked"], cost=3), OUT)

# ------------------------------------------------------------------ S29, S30
_u8 = "-DNARROW_SIZE=std::uint8_t -DNARROW_DIFF=std::int16_t -DMAXN=700"
_u16 = "-DNARROW_SIZE=std::uint16_t -DNARROW_DIFF=std::int32_t -DMAXN=700"
_lim = [cfg(1, 3, 0, 3, _u8), cfg(3, 4, 0, 3, _u8), cfg(20, 7, 0, 3, _u8), cfg(1, 255, 1, 3, _u8)]
_lim16 = ["-DSEGN=128 -DBASEN=47 -DDEFAULT_TARGETS -DALLOC=3 " + _u16, cfg(3, 9, 0, 3, _u16)]
prop("S29", "allocators with an 8-bit size_type, sequences of 245..255 elements (255 = max_size()), 4 node capacities: every index, position and pair in windows around the ends and node boundaries, every single edit and block move near both ends of every building history, bulk edits, copies, splices, sort and merge that end at exactly 255 elements; a 16-bit size_type with operations that end at exactly 65535 elements",
     each("far", "h_far", _lim, {"n": 255, "kind_hi": 2}, {"n": 255, "kind_hi": 2, "radius": 6}, ["far checked"], cost=2) +
     each("far", "h_far", _lim, {"n": 254, "kind_lo": 3, "kind_hi": 4}, {"n": 254, "kind_lo": 3, "kind_hi": 4, "radius": 12}, ["far checked"], cost=2) +
     each("far", "h_far", _lim, {"n": 200, "run": 55, "kind_lo": 5, "kind_hi": 5}, {"n": 127, "run": 128, "kind_lo": 5, "kind_hi": 5}, ["far checked"]) +
     each("far", "h_far", _lim, {"n": 255, "kind_lo": 6}, {}, ["far checked"]) +
     each("far", "h_vast", _lim, {"n": 100, "c": 155, "kind_hi": 5}, {"n": 30, "c": 225}, ["vast checked"]) +
     each("far", "h_vast", _lim, {"n": 100, "c": 155, "total": 255, "kind_lo": 6, "kind_hi": 6}, {"n": 30, "c": 225}, ["vast checked"]) +
     each("far", "h_vast", _lim, {"n": 0, "c": 255, "kind_lo": 7, "kind_hi": 8}, {}, ["vast checked"]) +
     each("far", "h_vast", _lim, {"n": 0, "c": 227, "kind_lo": 9, "kind_hi": 9}, {"c": 200}, ["vast checked"]) +
     each("access", "h_access", _lim[:3], {"nmin": 255, "n": 255, "shape_hi": 2}, {"nmin": 252, "n": 255, "shape_hi": 3}, ["access checked", "past the end"], cost=2) +
     each("access", "h_blocks", _lim[:3], {"nmin": 255, "n": 255, "shape_hi": 2}, {"nmin": 252, "n": 255, "shape_hi": 3}, ["blocks checked"]) +
     each("single", "h_erase", _lim[:3], {"nmin": 255, "n": 255, "shape_hi": 2}, {"nmin": 252, "n": 255, "shape_hi": 3}, ["erase checked"], cost=3) +
     each("far", "h_vast", _lim16, {"n": 300, "c": 65235, "kind_hi": 3, "max_steps": 400000000}, {"kind_hi": 5}, ["vast checked"], cost=4), OUT + "; size types wider than 16 bits at their limit")
_mv = [cfg(1, 3, 1, 1), cfg(2, 3, 1, 1, "-DMAYTHROW"), cfg(3, 4, 1, 1), cfg(2, 3, 1, 2, "-DMAYTHROW -DPROP_COPY=1 -DPROP_MOVE=1 -DPROP_SWAP=1")]
prop("S30", TREES + "22 kinds of operation with elements whose copies, moves and self-assignments are counted (moves declared noexcept or not): rvalue, lvalue and emplacing insertion, erasure, resize, counts, ranges and move-iterator ranges (multi-pass and single-pass), every constructor, splice, merge, sort, reverse, removal, moves, copies and swap with equal, unequal and propagating allocators",
     each("moves", "h_moves", _mv, {"n": 14, "c": 6, "kind_hi": 11}, {"n": 18, "c": 8, "kind_hi": 11}, ["moves checked"], cost=3) +
     each("moves", "h_moves", _mv[:2], {"nmin": 20, "n": 24, "c": 2, "kind_hi": 3, "shape_hi": 3}, {"nmin": 20, "n": 44, "c": 3, "kind_hi": 6}, ["moves checked"], cost=2) +
     each("moves", "h_moves", _mv, {"n": 6, "bn": 5, "kind_lo": 12, "kind_hi": 12}, {"n": 8, "bn": 6, "kind_lo": 12, "kind_hi": 12}, ["moves checked"], cost=2) +
     each("moves", "h_moves", _mv, {"n": 3, "bn": 3, "kind_lo": 13, "kind_hi": 14}, {"n": 4, "bn": 4, "kind_lo": 13, "kind_hi": 14}, ["moves checked"], cost=3) +
     each("moves", "h_moves", _mv[:3], {"nmin": 18, "n": 34, "bn": 20, "fixed": 1, "kind_lo": 13, "kind_hi": 16, "shape_hi": 0}, {"nmin": 18, "n": 70, "bn": 34, "fixed": 1, "kind_lo": 13, "kind_hi": 16, "shape_hi": 2}, ["moves checked"], cost=2) +
     each("moves", "h_moves", _mv, {"n": 7, "kind_lo": 15, "kind_hi": 16}, {"n": 10, "kind_lo": 15, "kind_hi": 16}, ["moves checked"], cost=3) +
     each("moves", "h_moves", _mv, {"n": 18, "bn": 5, "kind_lo": 17}, {"n": 34, "bn": 8, "kind_lo": 17}, ["moves checked"], cost=2), OUT)
prop("S31", TREES + "every sub-range [i, j) for 12 algorithms that place elements; 18 algorithms that look at the elements over 4 value patterns of 0..pn elements with two arbitrary values; the oracle is the same algorithm over an array",
     each("stdalg", "h_place", PLAIN + TRACK[:2] + ALIEN[:2] + [cfg(3, 3, 8), cfg(3, 3, 9)], {"n": 8}, {"n": 13}, ["placement checked"], cost=2) +
     each("stdalg", "h_place", [cfg(1), cfg(2, 3, 1, 1)], {"nmin": 18, "n": 18, "shape_hi": 1}, {"nmin": 18, "n": 30, "shape_hi": 3}, ["placement checked"], cost=2) +
     each("stdalg", "h_value", [cfg(1), cfg(2, 3, 1, 1), cfg(3, 4)], {"pn": 9}, {"pn": 14}, ["algorithm checked"], cost=4) +
     each("stdalg", "h_value", [cfg(1), cfg(3, 4, 1, 1)], {"pmin": 17, "pn": 18}, {"pmin": 17, "pn": 26}, ["algorithm checked"], cost=4), OUT)
