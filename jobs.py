"""Drivers (generated translation units) and the exploration jobs of every property."""
import re
from collections import namedtuple

TU = namedtuple("TU", "key source cxx flags libs cfg")
class Job:
    def __init__(self, tu, label, args, cost=1.0, budget_arg=True):
        self.tu, self.label, self.args, self.cost, self.budget_arg = tu, label, args, cost, budget_arg

GXX = ["-std=c++17", "-O1", "-fno-lifetime-dse", "-w"]
RACE_LIBS = ['-Wl,--wrap=__cxa_guard_acquire', '-Wl,--wrap=__cxa_guard_release']
ASSUMPTIONS = [
    "exploration is bounded: element count, capacity and depth limits are listed per driver in coverage.drivers[].options",
    "single-threaded execution of each operation (the library has no synchronisation)",
    "g++ 13 -O1, x86-64; the instrumented element, allocator, comparator and iterator types stand for arbitrary user types",
]
def dkey(defs): return ''.join('_' + re.sub(r'[^A-Za-z0-9]+', '', x) for x in defs)
def flags_of(extra=()): return GXX + [x for x in extra if not x.startswith('@')]
CLANG = ['-std=c++20', '-O1', '-w']
def toolchain(defs):
    # '@clang' selects clang++ -std=c++20
    return ('clang++', CLANG + [x for x in defs if not x.startswith('@')]) if '@clang' in defs else ('g++', flags_of(defs))

# ---------------------------------------------------------------- sequence containers
SEQ = {  # name: (type expression, family, N)
    "vector": ("sfl::vector<T,A>", "VECTOR", 0),
    "small0": ("sfl::small_vector<T,0,A>", "SMALL", 0),
    "small2": ("sfl::small_vector<T,2,A>", "SMALL", 2),
    "small3": ("sfl::small_vector<T,3,A>", "SMALL", 3),
    "compact": ("sfl::compact_vector<T,A>", "COMPACT", 0),
    "static3": ("sfl::static_vector<T,3>", "STATIC", 3),
    "static4": ("sfl::static_vector<T,4>", "STATIC", 4),
    "static160": ("sfl::static_vector<T,160>", "STATIC", 160),
    "static20": ("sfl::static_vector<T,20>", "STATIC", 20),
    "static40": ("sfl::static_vector<T,40>", "STATIC", 40),
    "devector": ("sfl::devector<T,A>", "DEVECTOR", 0),
    "segv1": ("sfl::segmented_vector<T,1,A>", "SEGV", 1),
    "segv2": ("sfl::segmented_vector<T,2,A>", "SEGV", 2),
    "segv3": ("sfl::segmented_vector<T,3,A>", "SEGV", 3),
    "segv5": ("sfl::segmented_vector<T,5,A>", "SEGV", 5),
    "segd5": ("sfl::segmented_devector<T,5,A>", "SEGD", 5),
    "segd1": ("sfl::segmented_devector<T,1,A>", "SEGD", 1),
    "segd2": ("sfl::segmented_devector<T,2,A>", "SEGD", 2),
    "segd3": ("sfl::segmented_devector<T,3,A>", "SEGD", 3),
}
def seq(c, T="NC", AC=1, defs=(), L=None):
    typ, fam, n = SEQ[c]
    ac = -1 if fam == "STATIC" else AC
    key = f"seq_{c}_{T}_{ac}".replace("-", "m") + dkey(defs)
    src = f'''#include "seq.hpp"
struct Cfg {{ using T = mc::{T}; using A = mc::Al<T,{max(ac,0)}>; using C = {typ}; static constexpr mc::Fam fam = mc::{fam}; static constexpr int N = {n}, AC = {ac}; }};
int main(int c, char** v) {{ return mc::mc_main<mc::Seq<Cfg>>(c, v); }}
'''
    return TU(key, src, *toolchain(defs), RACE_LIBS if '-DMC_RACE' in defs else [], f"{typ} T={T} allocator-config={ac}")

# ---------------------------------------------------------------- flat associative containers
def flat_name(small, ord_, uniq, mapp):
    return ("small_" if small else "static_") + ("" if ord_ else "unordered_") + "flat_" + ("" if uniq else "multi") + ("map" if mapp else "set")
def flat(name, K="NC", V="VNC", N=2, AC=1, transp=True, defs=()):
    small = name.startswith("small_"); ord_ = "unordered" not in name; uniq = "multi" not in name; mapp = name.endswith("map")
    cmp_ = "Less" if ord_ else "Eq"; t = "true" if transp else "false"
    v = f"using V = mc::{V}; using E_ = std::pair<K,V>;" if mapp else "using V = mc::NoMap; using E_ = K;"
    targs = ("K,V" if mapp else "K") + f",{N},Cmp" + (",A" if small else "")
    ac = AC if small else 0
    key = f"flat_{name}_{K}_{V if mapp else 'set'}_{N}_{ac}_{int(transp)}" + dkey(defs)
    b = lambda x: "true" if x else "false"
    src = f'''#include "flat.hpp"
struct Cfg {{ using K = mc::{K}; {v} using A = mc::Al<E_,{ac}>; using Cmp = mc::{cmp_}<K,{t}>; using C = sfl::{name}<{targs}>; static constexpr bool ord={b(ord_)}, uniq={b(uniq)}, small={b(small)}, transp={t}; static constexpr int N={N}, AC={ac}; }};
int main(int c, char** v) {{ return mc::mc_main<mc::Flat<Cfg>>(c, v); }}
'''
    return TU(key, src, *toolchain(defs), RACE_LIBS if '-DMC_RACE' in defs else [], f"sfl::{name}<K={K},V={V if mapp else '-'},N={N}> transparent={t} allocator-config={ac}")

CONTIG = ["vector", "small0", "small2", "compact", "static3"]
SEGS = ["segv1", "segv2", "segd2", "segd3"]
ALLSEQ = CONTIG + ["devector"] + SEGS
FLAT_ORD_U = [flat_name(s, 1, 1, m) for s in (1, 0) for m in (0, 1)]
FLAT_ORD_M = [flat_name(s, 1, 0, m) for s in (1, 0) for m in (0, 1)]
FLAT_UN_U = [flat_name(s, 0, 1, m) for s in (1, 0) for m in (0, 1)]
FLAT_UN_M = [flat_name(s, 0, 0, m) for s in (1, 0) for m in (0, 1)]
ALLFLAT = FLAT_ORD_U + FLAT_ORD_M + FLAT_UN_U + FLAT_UN_M
SMALLFLAT = [f for f in ALLFLAT if f.startswith("small_")]
ALLOCSEQ = [c for c in ALLSEQ if c != "static3"]

COST = {"segv5": 8, "segd5": 25, "devector": 40, "segd2": 25, "segd3": 10, "vector": 6, "small0": 6, "small2": 8, "segv1": 8, "segv2": 8, "compact": 3, "static3": 1, "static4": 2, "static20": 2, "static160": 2, "static40": 2, "small3": 8, "segd1": 25, "segv3": 8}

def S(c, L=3, T="NC", AC=1, cap=None, R=None, F=None, **kw):
    """one exploration job on a sequence container"""
    tu = seq(c, T, AC, kw.pop("defs", ()))
    if c.startswith("segd"):
        cap = 6 if cap is None else cap; R = 4 if R is None else R; F = 0 if F is None else F
        if L >= 3: kw.setdefault("Lp", 2)
    if c == "devector":
        cap = 8 if cap is None else cap; R = 5 if R is None else R; F = 1 if F is None else F; kw.setdefault("Lp", 2)
    a = ["--L", L, "--R", 7 if R is None else R, "--cap", 16 if cap is None else cap]
    if F is not None: a += ["--F", F]
    for k, v in kw.items(): a += ["--" + k, v]
    if c == "static3": a[1] = min(L, 3)
    return Job(tu, f"{c}<{T}>/alloc{AC}", a, COST[c] * 3 ** (L - 4))
def Fl(name, L=3, K="NC", V="VNC", N=2, AC=1, transp=True, cap=8, R=7, Lp=3, **kw):
    if name.startswith("static_") and N < L: N = L
    tu = flat(name, K, V, N, AC, transp, kw.pop("defs", ()))
    a = ["--L", L, "--R", R, "--cap", cap, "--Lp", Lp]
    for k, v in kw.items(): a += ["--" + k, v]
    return Job(tu, f"{name}<{K}{',' + V if name.endswith('map') else ''}>/N{N}/alloc{AC}" + ("" if transp else "/nontransparent"), a, (3 if name.startswith("small") else 0.3) * 2.5 ** (L - 3))
def both(L, T="NC", V="VNC", AC=1, Lf=None, **kw):
    return [S(c, L, T, AC, **kw) for c in ALLSEQ] + [Fl(f, L if Lf is None else Lf, T, V, 2, AC, **kw) for f in ALLFLAT]

# long runs with counting elements (big.hpp)
BIGSEQ = [("vector<E,A<E>>", "VECTOR", 0), ("small_vector<E,0,A<E>>", "SMALL", 0), ("small_vector<E,7,A<E>>", "SMALL", 7), ("static_vector<E,20000>", "STATIC", 20000), ("compact_vector<E,A<E>>", "COMPACT", 0), ("devector<E,A<E>>", "DEVECTOR", 0)] + \
    [(f"segmented_{v}<E,{n},A<E>>", s, n) for v, s in (("vector", "SEGV"), ("devector", "SEGD")) for n in (1, 4, 7, 64, 1000)]
def bigs(pick=None):
    r = []
    def add(t, body, cost):
        key = "big_" + re.sub(r"[^A-Za-z0-9]+", "_", t)
        r.append(Job(TU(key, f'#include "big.hpp"\nusing namespace big;\nint main(int c, char** v) {{ return big_main<{body}>(c, v); }}\n', "g++", ["-std=c++17", "-O2", "-w"], [], "long runs of sfl::" + t), "long runs: " + t, [], cost, budget_arg=False))
    for t, f, n in BIGSEQ: add(t, f"SeqBig<sfl::{t},{f},{n}>", 4)
    for f in ALLFLAT:
        small = f.startswith("small_"); ord_ = "unordered" not in f; uniq = "multi" not in f; mapp = f.endswith("map"); b = lambda x: "true" if x else "false"
        ns = (0, 5) if small else (1500,)
        for n in ns:
            cmp_ = "std::less<E>" if ord_ else "std::equal_to<E>"; e = "std::pair<E,E>" if mapp else "E"
            t = f"{f}<E{',E' if mapp else ''},{n},{cmp_}" + (f",A<{e}>>" if small else ">")
            add(t, f"FlatBig<sfl::{t},{b(ord_)},{b(uniq)},{b(mapp)},{0 if small else n}>", 1)
    return [j for j in r if pick is None or any(x in j.label for x in pick)]

PROPS = {}
def prop(pid, bounds, quick, thorough=None, **kw):
    PROPS[pid] = dict(bounds=bounds, jobs=lambda tier: quick() if tier == "quick" else (thorough or quick)(), **kw)

# operation groups of the sequence driver / of the flat driver (see seq.hpp, flat.hpp)
MOD, ALIAS, CAT, ASSIGN, CTOR, ERASEIF, CAP, OBS, COPY, PAIR, ITER, REL = (1 << i for i in range(12))
F_MOD, F_ALIAS, F_CAT, F_HINT, F_CTOR, F_ERASEIF, F_CAP, F_OBS, F_COPY, F_PAIR, F_HET, F_REL = (1 << i for i in range(12))
COSTM, BUILD, HUGE = 8192, 16384, 32768

def wide(c, L, T="TR", mask=0x7ff, **kw):
    """every single operation on containers of up to L elements with every kind of slack (depth 1), long series of
    operations, and every operation on a container of more than 100 elements"""
    return S(c, L, T, kw.pop("AC", 1), cap=500, R=L + 3, D=1, F=0, pairs=0, mask=mask | CTOR | BUILD, **{"faults": 0, **kw})
def widef(name, L, K="TR", V="TR", mask=F_MOD | F_HINT | F_ALIAS | F_OBS | F_ERASEIF | F_CTOR, big=False, **kw):
    n2 = kw.pop("N", 2); n = (180 if big else L) if name.startswith("static_") else n2
    return Fl(name, L, K, V, n, kw.pop("AC", 1), cap=500, R=L + 3, D=1, F=0, pairs=0, mask=mask | BUILD, **{"faults": 0, **kw})

SEGD_L = {"segd1": 5, "segd2": 7, "segd3": 8, "segv1": 7, "devector": 7}
def wides(L, T="NC", V="VNC", mask=None, fmask=None, faults=1, Lf=None, seqs=None, flats=None):
    """single operations on larger containers, on drivers that the property compiles anyway"""
    k = {} if mask is None else dict(mask=mask); fk = {} if fmask is None else dict(mask=fmask)
    return [wide(c, min(L, SEGD_L.get(c, L)) if faults else L, T, faults=faults, **k) for c in (ALLSEQ if seqs is None else seqs)] + \
        [widef(f, max(4, (Lf or L) - 3) if "multi" in f else (Lf or L), T, V, N=2, faults=faults, big=not faults, **fk) for f in (ALLFLAT if flats is None else flats)]

# ---- C01..C03: sequence containers against the ideal sequence
def c01q(): return [S(c, 5) for c in CONTIG + ["small3", "static4"]] + [S(c, 4, "TC") for c in CONTIG] + [S(c, 4, "MO", F=0) for c in CONTIG] + [wide(c, 20) for c in ["vector", "small2", "compact", "static160"]] + [wide(c, 16, "NC", faults=1) for c in ["vector", "small2", "small0", "compact"]] + [S("static4", 4, "TR", faults=0)] + bigs((": vector", "small_vector<", "static_vector<", "compact_vector<"))
def c01t(): return [S(c, 7) for c in CONTIG + ["small3", "static4"]] + [S(c, 5, t) for c in CONTIG for t in ("TC", "MO", "MT", "CO", "OA", "TR")] + [wide(c, 32, defs=("-DMC_MAXN=128",)) for c in CONTIG if c != "static3"] + [wide("static160", 32, defs=("-DMC_MAXN=128",))] + [wide(c, 24, "NC", faults=1) for c in CONTIG if c != "static3"] + bigs((": vector", "small_vector<", "static_vector<", "compact_vector<"))
def c02q(): return [S("devector", 4, cap=14, R=6, F=1, Lp=2), S("devector", 5, "TR", cap=12, R=7, faults=0, Lp=2), S("devector", 4, "MO", cap=8, R=5, F=0, Lp=2), S("devector", 4, "TC", cap=8, R=5, F=1, Lp=2), S("devector", 5, "CO", cap=8, R=5, F=0, pairs=0), wide("devector", 20), wide("devector", 12, "NC", faults=1)] + bigs((": devector",))
def c02t(): return [S("devector", 5, cap=16, R=7, F=2), S("devector", 7, "TR", cap=16, R=9, faults=0), S("devector", 5, "TC", cap=12, R=6, F=1), S("devector", 6, "NC", cap=12, R=7, F=0), S("devector", 5, "MO", cap=12, R=7, F=1), S("devector", 5, "CO", cap=12, R=7, F=1), S("devector", 5, "OA", cap=12, R=7, F=1), wide("devector", 32, defs=("-DMC_MAXN=128",)), wide("devector", 20, "NC", faults=1)] + bigs((": devector",))
def c03q(): return [S("segd2", 3, F=1, Lp=2), S("segd2", 4, cap=8, F=0, Lp=2), S("segd3", 4, cap=9, F=0, Lp=2), S("segd1", 4, cap=5, F=0, Lp=2), S("segv1", 4), S("segv2", 5), S("segv3", 5), S("segv2", 4, "TC"), S("segd2", 4, "TC", F=0, Lp=2), S("segd2", 3, "MO", F=0, Lp=2), wide("segv2", 16), wide("segd2", 16), wide("segv3", 16), wide("segd3", 16), wide("segv5", 16), wide("segd5", 16), wide("segd1", 8, "NC", faults=1), wide("segd2", 12, "NC", faults=1), wide("segv1", 12, "NC", faults=1), wide("segv3", 12, "NC", faults=1)] + bigs(("segmented_vector<E,7,", "segmented_devector<E,7,", "segmented_vector<E,64,", "segmented_devector<E,64,"))
def c03t(): return [S("segd2", 4, cap=8, F=1), S("segd3", 5, cap=12, F=1), S("segd1", 4, cap=6, F=1), S("segv1", 5), S("segv2", 6), S("segv3", 7)] + [S(c, 4, t, F=1) for c in SEGS for t in ("TC", "MO", "MT", "CO", "OA", "TR")] + [wide(c, 24) for c in ("segv1", "segv2", "segv3", "segd1", "segd2", "segd3")] + [wide(c, 16, "NC", faults=1) for c in ("segv1", "segv2", "segv3", "segd1", "segd2", "segd3")] + bigs(("segmented_",))
prop("C01", "vector, small_vector<0|2|3>, static_vector<3|4>, compact_vector: up to 4-5 elements and capacity 16 to a fixpoint over all operations, arguments and single faults; every single operation on up to 20 elements (16 with faults), long series of operations and single operations on more than 100 elements; long runs of up to 2^20 single operations at either end and whole-container operations at that size", c01q, c01t)
prop("C02", "devector: up to 4-5 elements, capacity up to 14, every distribution of free space at both ends that operations can reach, single faults; every single operation on up to 20 elements (12 with faults), long series of operations and single operations on more than 100 elements; long runs of up to 2^20 single operations at either end and whole-container operations at that size", c02q, c02t)
prop("C03", "segmented_vector<1|2|3|5>, segmented_devector<1|2|3|5>: up to 4-5 elements, capacity up to 9 in every reachable position of the elements over the segments; every single operation on up to 16 elements (8-12 with faults), long series of operations and single operations on more than 100 elements; long runs of up to 2^20 single operations at either end and whole-container operations at that size (segments of 7 and 64)", c03q, c03t)

# ---- C04..C07: flat containers against the ideal associative container
def flatq(names): 
    r = []
    for f in names:
        r += [Fl(f, 4, cap=8)]
        if f.startswith("small_"): r += [Fl(f, 3, N=0, AC=1, cap=6), Fl(f, 3, "TC", "VTC", cap=6)]
        r += [Fl(f, 3, "MO", "VMO", N=3 if f.startswith("static") else 1, cap=6), Fl(f, 3, transp=False, F=0, N=2)]
        r += [widef(f, 8 if "multi" in f else 16)]
        if f.startswith("static_"): r += [widef(f, 6, big=True)]
        r += [widef(f, 5 if "multi" in f else 9, "NC", "VNC", faults=1, N=2)]
        r += bigs((f": {f}<E,5,", f": {f}<E,E,5,", f": {f}<E,1500,", f": {f}<E,E,1500,"))
    return r
def flatt(names):
    r = []
    for f in names:
        r += [Fl(f, 5, cap=12, N=n) for n in ((2, 0, 1, 3) if f.startswith("small_") else (5, 1))]
        r += [Fl(f, 4, k, v, N=n, cap=8) for (k, v) in (("TC", "VTC"), ("MO", "VMO"), ("CO", "VNC"), ("MT", "VNC"), ("NC", "VTC"), ("OA", "OA"), ("TR", "TR")) for n in (2,)]
        r += [Fl(f, 4, transp=False, N=2), widef(f, 9 if "multi" in f else 18), widef(f, 6, big=True), widef(f, 7 if "multi" in f else 12, "NC", "VNC", faults=1)] + bigs((f": {f}<",))
    return r
FB = "every operation, key position, hint, source category and single fault on up to 4 elements and capacity 8, N in {0,1,2,3}, transparent and plain comparators in both directions; single operations on up to 8 (multi) / 16 (unique) elements (5 / 9 with faults) and on 120 elements; long runs of insertions, then lookups and erasures, on up to 32768 (unordered unique: 2048, static: 1500) elements"
prop("C04", "small_/static_ flat_set and flat_map: " + FB, lambda: flatq(FLAT_ORD_U), lambda: flatt(FLAT_ORD_U))
prop("C05", "small_/static_ flat_multiset and flat_multimap: " + FB, lambda: flatq(FLAT_ORD_M), lambda: flatt(FLAT_ORD_M))
prop("C06", "small_/static_ unordered_flat_set and unordered_flat_map: " + FB, lambda: flatq(FLAT_UN_U), lambda: flatt(FLAT_UN_U))
prop("C07", "small_/static_ unordered_flat_multiset and unordered_flat_multimap: " + FB, lambda: flatq(FLAT_UN_M), lambda: flatt(FLAT_UN_M))

def unequal(L=2, T="TC", V="VTC", AC=67):
    """two containers whose allocators may be unequal, elements that may throw when moved"""
    return [S(c, L, T, AC, F=0, cap=L + 3, R=3, Lp=2, mask=CTOR | COPY | PAIR | CAP) for c in ALLOCSEQ] + [Fl(f, L, T, V, 2, AC, cap=4, F=0, Lp=2, mask=F_CTOR | F_CAP | F_COPY | F_PAIR) for f in SMALLFLAT]

# ---- cross-cutting guarantees: every container, every monitor on; the explored dimension differs
GB = "all 7 sequence containers and all 16 flat containers; "
prop("C08", GB + "up to 3 elements, all operations, all single faults, element types that track lifetime (also over-aligned), stateless allocator, stateful and unequal allocators; single operations with all faults on up to 9 elements",
     lambda: both(3) + [S(c, 3, "OA", F=0) for c in ALLSEQ] + [S(c, 3, "TC", F=0) for c in ALLSEQ] + wides(9, flats=()) + wides(8, "TC", "VTC", seqs=()) + [Fl(f, 2, "TC", "VTC", cap=4) for f in ALLFLAT] + unequal(),
     lambda: both(4) + both(4, "TC", "VTC", F=1) + [S(c, 4, "OA", F=1) for c in ALLSEQ] + [S(c, 4, "MO", F=1) for c in ALLSEQ])
prop("C09", GB + "up to 3 elements; an exception from each allocation, construction, copy, move, assignment, comparison, predicate and source iterator of every operation; the state left behind is explored further; single operations on up to 8 elements; pairs of containers with unequal allocators",
     lambda: both(3, "TC", "VTC") + [S(c, 3, "NC") for c in ("vector", "small2", "devector", "segv2", "segd2")] + [Fl(f, 2, "NC", "VTC", cap=4) for f in FLAT_ORD_U if "map" in f] + [Fl(f, 2, "NC", "VNC", cap=4) for f in ALLFLAT] + wides(8, "TC", "VTC") + unequal(),
     lambda: both(4, "TC", "VTC") + both(4, "NC", "VNC") + both(2, "TC", "VTC", faults=2, F=2, cap=5, R=4, pairs=0) + both(3, "MT", "VNC"))
STRONG = MOD | ALIAS | CTOR | CAP
def c10(L, ts): return [S(c, L, t, mask=STRONG, pairs=0) for c in ("vector", "small0", "small2", "compact", "devector", "segv1", "segv2", "segd2", "static3") for t in ts] + [Fl(f, L - 1, t, "V" + t if t != "MT" else "VNC", mask=F_MOD | F_CTOR | F_CAP, pairs=0, cap=6) for f in SMALLFLAT for t in ts]
prop("C10", "containers with documented strong guarantees: reserve*/shrink_to_fit and single insertion at an end; up to 4 elements (flat: 3); single faults at every point; nothrow-move, throwing-move and move-only elements; also single operations on up to 10 (flat: 8) elements",
     lambda: c10(4, ("NC", "TC")) + [wide(c, min(10, SEGD_L.get(c, 10)), t, mask=STRONG, faults=1) for c in ALLOCSEQ if c != "segd3" for t in ("NC", "TC")] + [widef(f, 8, t, "V" + t, mask=F_MOD | F_CTOR | F_CAP, faults=1) for f in SMALLFLAT for t in ("NC", "TC")] + [S(c, 3, "NC", 33, F=0, pairs=0, mask=MOD | CAP | CAT) for c in ALLOCSEQ] + [Fl(f, 2, AC=33, pairs=0, F=0) for f in SMALLFLAT], lambda: c10(5, ("NC", "TC")) + c10(4, ("MT",)))
def c11(L, acs, T="NC", V="VNC"):
    kw = dict(mask=CTOR | COPY | PAIR | MOD | CAP | ASSIGN)
    return [S(c, L, T, a, F=1 if L < 3 else 0, cap=L + (3 if c.startswith("seg") else 4), R=4, **kw) for c in ALLOCSEQ for a in acs] + [Fl(f, L, T, V, 2, a, cap=4, F=1, mask=F_MOD | F_CTOR | F_CAP | F_COPY | F_PAIR) for f in SMALLFLAT for a in acs]
prop("C11", "all containers with an allocator; stateful allocators with ids 1,2 (+10 after select_on_container_copy_construction), the propagation traits alone and together (thorough: all 8 combinations), raw and fancy pointers, allocators with their own construct/destroy; up to 2 elements, pairs of containers with equal and unequal allocators; single operations on up to 8 (flat: 5) elements",
     lambda: c11(2, (67, 5, 9, 95)) + unequal() + [wide(c, 8, "NC", AC=a, mask=COPY | PAIR | CAP | ASSIGN) for c in ALLOCSEQ for a in (67, 95)] + [widef(f, 5, "NC", "VNC", AC=a, mask=F_COPY | F_PAIR | F_CAP) for f in SMALLFLAT for a in (67, 95)], lambda: c11(3, (65, 3, 5, 7, 9, 11, 13, 15, 17, 95)))

def c12(L, T="NC", V="VNC", AC=1, **kw):
    kw.setdefault("mask", CTOR | COPY | PAIR | MOD | CAP)
    fm = F_CTOR | F_COPY | F_PAIR | F_MOD | F_CAP
    return [S(c, L, T, AC, Lp=L, F=0 if c.startswith("seg") or c == "devector" else 1, cap=L + 3, R=L + 1, **kw) for c in ALLSEQ] + [Fl(f, L, T, V, 2, AC, Lp=L, cap=5, mask=fm) for f in ALLFLAT]
prop("C12", GB + "every pair of reachable states of up to 3 elements (this, other) under copy/move assignment and swap, every state under copy/move construction with and without an allocator; moved-from containers are explored further; pairs of up to 8 (flat: 6) elements with equal, interleaved and disjoint keys",
     lambda: c12(3) + c12(2, "MO", "VMO") + wides(8, mask=COPY | PAIR, fmask=F_COPY | F_PAIR, Lf=6) + [S(c, 2, "NC", 0, Lp=2, F=1, cap=5, R=3, mask=CTOR | COPY | PAIR | MOD | CAP) for c in ALLOCSEQ],
     lambda: c12(4) + c12(3, "MO", "VMO") + c12(3, "TC", "VTC") + c12(3, "NC", "VNC", 0) + c12(3, "CO", "VNC"))
def c13(L, T="NC"):
    return [S(c, L, T, F=0, mask=MOD | CTOR | CAP | COPY | PAIR | ASSIGN, Lp=2) for c in ("vector", "small0", "small2", "small3", "compact", "static3", "static4", "segv2", "segd2")] + [S("devector", L, T, F=0, cap=10, R=6, Lp=2, mask=MOD | CTOR | CAP | COPY | PAIR | ASSIGN)]
def c13f(L, caps): return [Fl(f, L, N=n, cap=8, F=0, mask=F_MOD | F_CTOR | F_CAP | F_COPY | F_PAIR) for f in ALLFLAT for n in (caps if f.startswith("small") else (L,))]
prop("C13", GB + "up to 4 elements, capacity up to 8..16, every reserve argument up to 7, N in {0,2,3} for small and {3,4} for static containers; also single operations on up to 16 elements",
     lambda: c13(4) + c13f(3, (0, 2)) + wides(16, mask=MOD | CAP, fmask=F_MOD | F_CAP, faults=0, flats=SMALLFLAT) + [wide(c, 16, "NC", mask=MOD | CAP) for c in ("small0", "small3")],
     lambda: c13(5) + c13f(4, (0, 1, 2, 3)) + [wide(c, 20, mask=MOD | CAP) for c in ("vector", "small2", "devector", "segv2", "segd2", "segv3", "segd3")])
prop("C14", GB + "addresses of all elements before and after every operation, in every state of up to 4 elements",
     lambda: [S(c, 4, F=0, pairs=0, faults=0, **({"cap": 8} if c == "segd2" else {})) for c in ALLSEQ if c != "segd3"] + [S("segd3", 4, cap=9, F=0, pairs=0, faults=0)] + [S(c, 3, F=0, Lp=3, cap=6, R=4) for c in ("vector", "devector", "compact", "segv2", "segd2")] + [Fl(f, 4, faults=0, Lp=3) for f in ALLFLAT] + [wide(c, 14, "NC", mask=0x7ff) for c in ALLSEQ] + [widef(f, 10, "NC", "VNC") for f in ALLFLAT],
     lambda: [S(c, 5, F=0, pairs=0, faults=0, cap=14 if c != "segd2" else 8) for c in ALLSEQ] + [S(c, 3, F=0, Lp=3, cap=6, R=4) for c in ALLOCSEQ] + [Fl(f, 5, faults=0) for f in ALLFLAT] + [wide(c, 12) for c in ALLSEQ if c != "static3"])
def c15(L, T="TR"):
    return [S(c, L, T, cap=2 * L + 2, R=L + 2, F=0, faults=0, pairs=0, mask=MOD | CAP | OBS, D=D) for c, D in (("vector", 4), ("small2", 4), ("compact", 4), ("static4", 6), ("devector", 4), ("segv1", 4), ("segv2", 4), ("segv3", 4), ("segd1", 3), ("segd2", 3), ("segd3", 3))]
prop("C15", GB + "all pairs of positions (i, j) in containers of up to 7 elements over segments of 1, 2 and 3 elements with every reachable offset of the first element; iterator, const_iterator, reverse iterators, nth, index_of",
     lambda: [S(c, 4, "NC", F=0, faults=0, pairs=0, mask=MOD | CAP | OBS, **k) for c, k in ((("vector"), {}), ("small2", {}), ("compact", {}), ("static4", {}), ("devector", {"cap": 10}), ("segv1", {"cap": 8}), ("segv2", {"cap": 10}), ("segv3", {"cap": 12}), ("segd1", {"cap": 7}), ("segd2", {"cap": 10}), ("segd3", {"cap": 12}))] + [S(c, 7, "NC", F=0, faults=0, pairs=0, R=3, cap=12, mask=OBS | CTOR | 0, D=2) for c in ("segv1", "segv2", "segv3", "segd1", "segd2", "segd3", "vector", "devector", "small2", "compact")] + [Fl(f, 5, faults=0, pairs=0, cap=6, mask=F_MOD | F_OBS) for f in ALLFLAT],
     lambda: [S(c, 6, "NC", F=0, faults=0, pairs=0, mask=MOD | CAP | OBS, **k) for c, k in ((("vector"), {}), ("small2", {}), ("compact", {}), ("static4", {}), ("devector", {"cap": 14}), ("segv1", {"cap": 10}), ("segv2", {"cap": 12}), ("segv3", {"cap": 15}), ("segd1", {"cap": 9}), ("segd2", {"cap": 12}), ("segd3", {"cap": 15}))] + [S(c, 16, "NC", F=0, faults=0, pairs=0, R=3, cap=24, mask=OBS | CTOR, D=2) for c in ("segv1", "segv2", "segv3", "segd1", "segd2", "segd3", "vector", "devector", "small2", "compact")] + [Fl(f, 6, faults=0, pairs=0, cap=8, mask=F_MOD | F_OBS) for f in ALLFLAT])
def c16(L, ts, Lf): return [S(c, L, t, F=0, pairs=0, mask=MOD | ALIAS | CAP | ASSIGN, **({"cap": 8} if c == "segd2" else {})) for c in ALLSEQ for t in ts] + [Fl(f, Lf, t, "V" + t, cap=6, pairs=0, F=0, mask=F_MOD | F_ALIAS | F_CAP | F_ERASEIF) for f in ALLFLAT for t in ts]
prop("C16", GB + "every argument position i and insertion position p in every state of up to 4 (flat: 3) elements with and without spare capacity, single faults",
     lambda: c16(4, ("NC",), 3) + c16(3, ("TC",), 2) + wides(10, mask=ALIAS | MOD | ASSIGN, fmask=F_ALIAS | F_MOD, Lf=8), lambda: c16(5, ("NC", "TC"), 4))
prop("C17", "16 flat containers with a transparent comparator: all states of up to 4 elements, every key value including absent ones, const and non-const lookup; and with a plain comparator",
     lambda: [Fl(f, 4, pairs=0, F=0, mask=F_MOD | F_OBS | F_HET, cap=8) for f in ALLFLAT] + [Fl(f, 3, transp=False, pairs=0, F=0, mask=F_MOD | F_OBS | F_HET) for f in ALLFLAT] + [widef(f, 8 if "multi" in f else 14, "NC", "VNC", mask=F_OBS | F_HET | F_MOD, big=True) for f in ALLFLAT],
     lambda: [Fl(f, 5, pairs=0, F=1, mask=F_MOD | F_OBS | F_HET, cap=8) for f in ALLFLAT] + [Fl(f, 4, transp=False, pairs=0, F=1, mask=F_MOD | F_OBS | F_HET) for f in ALLFLAT] + [widef(f, 9 if "multi" in f else 18, mask=F_OBS | F_HET | F_MOD) for f in ALLFLAT])
def c18(L, Lf): return [S(c, L, F=0, pairs=0, cap=8, mask=CAT | CTOR | ASSIGN | CAP) for c in ALLSEQ] + [Fl(f, Lf, cap=6, pairs=0, F=0, mask=F_CAT | F_CTOR | F_CAP) for f in ALLFLAT]
prop("C18", GB + "construction, assignment and insertion from 9 kinds of ranges (pointer, single-pass input, forward, bidirectional, random access, initializer list, convertible values, move iterators, segmented iterators) of 0..room elements at every position, single faults",
     lambda: c18(4, 3) + wides(9, mask=CAT | ASSIGN, fmask=F_CAT, Lf=7) + [S(c, 3, "MO", F=0, pairs=0, mask=CAT | CTOR | ASSIGN | CAP) for c in ALLSEQ], lambda: c18(5, 4) + [S(c, 4, t, F=0, pairs=0, mask=CAT | CTOR | ASSIGN | CAP) for c in ALLSEQ for t in ("MO", "TC", "TR")])
prop("C20", GB + "allocators with max_size() 5..7, and small_ containers whose N exceeds max_size(): every operation whose result is below, at and above the limit; every counted operation with 17 counts far beyond every limit (among them those that overflow when a size or capacity is added); at() and map at(key) with every index/key in and out of range",
     lambda: [S(c, 3, "NC", 33, F=0, Lp=2, mask=0xfff | HUGE) for c in ALLOCSEQ] + [S("small3", 5, "NC", 33, F=0, Lp=3, extra=x, mask=0xfff | HUGE) for x in (1, 2)] + [Fl(f, 3, AC=33, Lp=2, F=0, mask=0xfff | HUGE) for f in SMALLFLAT] + [Fl(f, 4, N=3, AC=33, Lp=2, F=0, extra=2, mask=0xfff | HUGE) for f in SMALLFLAT] + [S(c, 3, F=0, pairs=0, mask=MOD | CAP | OBS | HUGE) for c in ALLSEQ] + [Fl(f, 4, pairs=0, F=0, mask=F_MOD | F_CAP | F_OBS | HUGE) for f in ALLFLAT],
     lambda: [S(c, 4, "NC", 33, F=1, Lp=2, mask=0xfff | HUGE) for c in ALLOCSEQ] + [S(c, 3, "NC", 33, F=0, extra=x, mask=0xfff | HUGE) for c in ALLOCSEQ for x in (4, 5, 6, 9)] + [Fl(f, 4, AC=33, F=1, mask=0xfff | HUGE) for f in SMALLFLAT])
prop("C21", GB + "relational operators: every assignment of {1,2} to the elements of two containers of up to 4 elements; erase/erase_if: every subset of positions to remove, up to 8 elements",
     lambda: [S(c, 4, F=0, mask=MOD | ERASEIF | PAIR | REL, faults=0, cap=6, maxb=30) for c in ALLSEQ] + [S(c, 8, "NC", F=1, D=1, pairs=0, cap=20, mask=ERASEIF | CTOR) for c in ALLSEQ if c != "static3"] + wides(4, mask=REL | ERASEIF, fmask=F_REL | F_ERASEIF, faults=0) + [Fl(f, 4, F=0, cap=6, mask=F_MOD | F_ERASEIF | F_PAIR | F_REL, faults=1) for f in ALLFLAT],
     lambda: [S(c, 4, F=1, mask=MOD | ERASEIF | PAIR | REL, Lp=4, cap=8) for c in ALLSEQ] + [S(c, 8, t, F=1, D=1, pairs=0, cap=20, mask=ERASEIF | CTOR) for c in ALLSEQ if c != "static3" for t in ("NC", "TC", "MO")] + [Fl(f, 5, cap=6, mask=F_MOD | F_ERASEIF | F_PAIR | F_REL) for f in ALLFLAT])
UMAPS = [f for f in FLAT_ORD_U + FLAT_UN_U if f.endswith("map")]; ASETS = ALLFLAT
prop("C22", "flat_map and unordered_flat_map (small_ and static_): operator[], try_emplace, insert_or_assign, at with every present and absent key in all states of up to 5 elements, hints, single faults, copyable and move-only keys and values",
     lambda: [Fl(f, 5, pairs=0, F=0, cap=8, mask=F_MOD | F_HINT | F_ALIAS | F_HET) for f in UMAPS] + [Fl(f, 4, k, v, pairs=0, F=1, cap=6, mask=F_MOD | F_HINT | F_ALIAS | F_HET) for f in UMAPS for k, v in (("NC", "VTC"), ("TC", "VTC"), ("MO", "VMO"))] + [widef(f, 14, "NC", "VNC", big=True) for f in UMAPS] + [widef(f, 10, "NC", "VNC", faults=1) for f in UMAPS],
     lambda: [Fl(f, 6, pairs=0, F=1, cap=10, N=n, mask=F_MOD | F_HINT | F_ALIAS | F_HET) for f in UMAPS for n in (0, 2)] + [Fl(f, 5, k, v, pairs=0, F=1, cap=8, mask=F_MOD | F_HINT | F_ALIAS | F_HET) for f in UMAPS for k, v in (("NC", "VTC"), ("TC", "VTC"), ("MO", "VMO"), ("CO", "VNC"))] + [widef(f, 20) for f in UMAPS])
prop("C23", "all 16 flat containers: insert/emplace (and try_emplace, insert_or_assign) with every hint position and every key position, present and absent, in all states of up to 5 elements, single faults",
     lambda: [Fl(f, 5, pairs=0, F=0, cap=8, mask=F_MOD | F_HINT) for f in ALLFLAT] + [Fl(f, 3, "TC", "VTC", pairs=0, F=1, cap=6, mask=F_MOD | F_HINT) for f in ALLFLAT] + [widef(f, 8 if "multi" in f else 14, "NC", "VNC", mask=F_HINT, big=True) for f in ALLFLAT],
     lambda: [Fl(f, 6, pairs=0, F=1, cap=8, mask=F_MOD | F_HINT) for f in ALLFLAT] + [Fl(f, 4, k, v, pairs=0, F=1, cap=6, mask=F_MOD | F_HINT) for f in ALLFLAT for k, v in (("TC", "VTC"), ("MO", "VMO"))])

# ---- C19: counted operations against the documented complexity
COSTSEQ = ["vector", "small0", "small2", "compact", "devector", "segv1", "segv3", "segd1", "segd3"]
def cost(c, L, T="NC", **kw):
    if c.startswith("static"): c = "static%d" % (40 if L > 20 else 20)
    return S(c, L, T, F=0, faults=0, pairs=0, cap=4 * L, R=L + 4, D=1, mask=MOD | ASSIGN | CTOR | CAP | ERASEIF | COSTM | BUILD, **kw)
def costf(f, L, T="NC", V="VNC", **kw):
    return Fl(f, L, T, V, L if f.startswith("static_") else 2, cap=4 * L, R=L + 4, F=0, faults=0, pairs=0, D=1, mask=F_MOD | F_HINT | F_CAP | F_ERASEIF | F_OBS | F_HET | COSTM | BUILD, **kw)
prop("C19", "all 7 sequence containers with 0..20 elements and every distribution of free capacity, all 16 flat containers with 0..16 elements: every operation with every position and count counts element operations, allocations, comparisons and predicate calls; series of 240 (flat: 200) operations from every such state; equality of all pairs of small containers; long runs (up to 2^20 operations at the ends, alternating, single-pass ranges, then every whole-container operation at that size; flat containers up to thousands of elements) with element operations, destructions, allocations, bytes and comparisons counted",
     lambda: [cost(c, 20, t) for c in COSTSEQ + ["static"] for t in ("NC", "TC")] + [costf(f, 16) for f in ALLFLAT] + [S(c, 3, "NC", F=0, faults=0, cap=5, R=4, maxb=40, mask=MOD | PAIR | REL | COSTM) for c in ALLSEQ] + bigs(),
     lambda: bigs() + [cost(c, 32, t, defs=("-DMC_MAXN=128",)) for c in COSTSEQ + ["static", "segv2", "segd2", "small3"] for t in ("NC", "TC", "TR", "OA")] + [costf(f, 24, *kv, defs=("-DMC_FMAXN=56",)) for f in ALLFLAT for kv in (("NC", "VNC"), ("TC", "VTC"))] + [S(c, 4, "NC", F=0, faults=0, cap=6, R=4, mask=MOD | PAIR | REL | COSTM) for c in ALLSEQ])

# ---- C24: precondition assertions
BAD = 4096
def c24ok(L, Lf, T="NC", V="VNC", AC=1, Lp=1): # every kind of valid call: none may trigger an assertion
    return [S(c, L, T, AC, F=0, faults=0, Lp=Lp, mask=0xfff, cap=6) for c in ALLSEQ + ["static4", "segd1", "segv3"]] + [Fl(f, Lf, T, V, 2, AC, F=0, faults=0, Lp=Lp, cap=4, R=3, mask=0xfff) for f in ALLFLAT]
def c24(L, Lf, T="NC", V="VNC", AC=1, Lp=1):
    return [S(c, L, T, AC, F=0, faults=0, Lp=Lp, mask=MOD | CAP | BAD | CTOR, **({"cap": 8} if c in ("devector", "segd2") else {})) for c in ALLSEQ + ["static4", "segd1", "segv3"]] + [Fl(f, Lf, T, V, 2, AC, faults=0, Lp=Lp, cap=6, mask=F_MOD | F_CAP | BAD | (F_CTOR if AC > 1 else 0)) for f in ALLFLAT]
prop("C24", GB + "in every state of up to 3 elements, every call whose position, hint, range, index or count violates a documented precondition (one before the first and one past the last position, reversed ranges, empty containers, full static containers, unequal allocators in swap): the assertion must fire; calls that meet the preconditions never trigger one, also with allocators that propagate and differ",
     lambda: c24(3, 3) + c24ok(3, 3) + c24(2, 2, "MO", "VMO", 15, 2) + c24ok(2, 2, "MO", "VMO", 15, 2) + [Fl(f, 3, transp=False, faults=0, pairs=0, cap=6, mask=F_MOD | F_CAP | BAD) for f in ALLFLAT],
     lambda: c24(5, 4) + c24ok(4, 3) + c24(4, 3, "MO", "VMO") + c24ok(3, 3, "MO", "VMO", 15, 2) + c24(3, 3, "NC", "VNC", 15, 2) + [Fl(f, 4, transp=False, faults=0, pairs=0, cap=6, mask=F_MOD | F_CAP | BAD) for f in ALLFLAT])

# ---- C25: other build configurations of the same library
NOEXC = ("-DNDEBUG", "-DSFL_NO_EXCEPTIONS", "-DMC_NOEXC", "-fno-exceptions")
def c25(L, Lf):
    r = [S(c, L, "NC", 33, F=0, faults=0, Lp=2, defs=NOEXC, mask=MOD | CAP | COPY | PAIR | ASSIGN | CTOR | OBS | HUGE) for c in ALLSEQ] + [Fl(f, Lf, AC=33, faults=0, Lp=2, cap=6, defs=NOEXC) for f in ALLFLAT]
    return r + [S(c, L, "TC", 1, F=0, faults=0, pairs=0, defs=("-DNDEBUG", "@clang")) for c in ALLSEQ] + [Fl(f, Lf, "TC", "VTC", faults=0, pairs=0, cap=5, defs=("-DNDEBUG", "@clang")) for f in ALLFLAT]
prop("C25", GB + "SFL_NO_EXCEPTIONS with -fno-exceptions and NDEBUG (g++), and NDEBUG with clang++ -std=c++20: all operations in all states of up to 3 elements against the same reference model, max_size() 5..7: errors that would throw abort, nothing else does",
     lambda: c25(3, 2), lambda: c25(4, 4))

# ---- C26: no writes to shared memory by observers, no shared state between containers
RACE = ("-DMC_RACE", "-fsanitize=thread", "-fno-pie")
def c26(L, Lf):
    return [S(c, L, "NC", 1, F=0, faults=0, Lp=1, defs=RACE, mask=MOD | CAP | COPY | PAIR | CTOR | OBS | REL, **({"cap": 6} if c in ("devector", "segd2") else {})) for c in ALLSEQ] + [Fl(f, Lf, faults=0, Lp=1, cap=5, defs=RACE, mask=F_MOD | F_CAP | F_COPY | F_PAIR | F_OBS | F_HET | F_REL) for f in ALLFLAT]
prop("C26", GB + "in every state of up to 3 elements: every const operation, every lookup, every iterator operation and every comparison runs with the memory of the container write-protected; every operation runs with all plain writes monitored for library objects of static storage duration",
     lambda: c26(3, 3), lambda: c26(4, 4))
