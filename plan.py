"""What each check runs: recorders of the real code, trace specifications, design models.

budget: how much each recorder sends to the model checker (quick, thorough); secs: how long it
records.
"""


def job(bin, spec="TraceRTree", secs=(9, 60), budget=(260_000, 3_000_000), **kw):
    return {"bin": bin, "spec": spec, "secs": secs, "budget": budget, "heap": "3g", **kw}


PLAN = {}


def check(prop, jobs, models=(), covers="", assumes=()):
    PLAN[prop] = {"jobs": jobs, "models": list(models), "covers": covers, "assumes": list(assumes)}


# Behaviours of the design, replayed in the library.
REPLAY = job("replay", gen="GenRTree", behaviours=(16, 1200), parts=4, secs=(5, 300), budget=(80_000, 8_000_000))


def mc(spec, cfg, thorough=False, **kw):
    return {"spec": spec, "cfg": cfg, "thorough": thorough, **kw}


# Small designs always, all of them in thorough runs.
FIRST = {"C01": "13", "C02": "23", "C03": "U", "C04": "18", "C05": "27", "C06": "02", "C13": "C9", "C15": "C2"}
LARGE = ["3", "4", "5", "6"] + [f"X{i}" for i in range(1, 10)]


def trees(first, rest=True):
    every = [c for c in "0127689UC" if c not in first and c not in LARGE]
    return [mc("MCRTree", "MCRTree" + c, workers=2) for c in first] + [
        mc("MCRTree", "MCRTree" + c, thorough=True, workers=4, heap="8g", timeout=7200) for c in every + LARGE if c not in first and rest]


for p in FIRST:
    check(p, [job("trees"), REPLAY], models=trees(FIRST[p]))


def searches(*names):
    """The search machines: small ones always, larger ones in thorough runs."""
    return [mc("MCSearches", n) for n in names] + [
        mc("MCSearches", n + "X", thorough=True, workers=4, heap="8g", timeout=7200) for n in names]


check("C07", [job("queries")], models=searches("MCScan"))
check("C09", [job("queries")], models=searches("MCRank"))
check("C10", [job("queries", budget=(120_000, 1_500_000))], models=searches("MCRank"))
check("C08", [job("queries", parts=4, budget=(160_000, 1_500_000)), job("joins", parts=4, budget=(140_000, 1_500_000))],
      models=searches("MCScan", "MCJoin", "MCLeftJoin"))
check("C11", [job("joins")], models=searches("MCJoin"))
check("C12", [job("joins", budget=(450_000, 3_000_000))], models=searches("MCLeftJoin") + [mc("MCRcMut", "MCRcMut")])
GEO = {"C17": ["boxes"], "C18": ["segments", "rays", "solid"], "C19": ["boxes"], "C20": ["segments", "rays"]}
for p in GEO:
    check(p, [job("geo", spec="TraceGeometry", budget=(16_000_000, 150_000_000))],
          models=[mc("MCGeometry", "MCGeometry_" + n, workers=2) for n in GEO[p]] +
          [mc("MCGeometry", f"MCGeometry_{n}X", thorough=True, workers=4) for n in GEO[p] if n != "solid"])
OWN = job("own", spec="TraceOwnership", budget=(6_000_000, 100_000_000))
check("C14", [OWN], models=[mc("MCRcMut", "MCRcMut")])
check("C16", [OWN], models=[mc("MCRcMut", "MCRcMut"), mc("MCPanics", "MCPanics1"), mc("MCPanics", "MCPanicsY")] +
      [mc("MCPanics", "MCPanics" + n, thorough=True, workers=4, heap="8g", timeout=7200) for n in "XZ"])


def total(bin, prop, budget, spec="TraceRTree"):
    return job(bin, spec=spec, prop=prop, clauses="C21", tag=prop, parts=1, secs=(6, 60), budget=budget)


check("C21", [job("total", spec="TraceTotal", parts=8, budget=(20_000_000, 200_000_000))]
      + [total("geo", p, (4_000_000, 80_000_000), "TraceGeometry") for p in ("C17", "C18", "C19", "C20")]
      + [total("trees", p, (30_000, 500_000)) for p in ("C01", "C13")]
      + [total("queries", p, (30_000, 500_000)) for p in ("C07", "C09")]
      + [total("joins", p, (30_000, 500_000)) for p in ("C11", "C12")],
      models=trees("0", rest=False) + [mc("MCHeight", "MCHeight")] + [mc("MCSearches", n) for n in ("MCScan", "MCRank", "MCJoin", "MCLeftJoin")])

# The depth of the recursion: logarithmic, unless nodes may have one child.
PLAN["C21"]["probes"] = [
    {"bin": "deep", "args": [2, 1, 12000, 2048], "key": "stack-depth-min-1",
     "what": "boxes around each other in a tree of 2/1, in a thread with a stack of 2 MiB"}] + [
    {"bin": "deep", "args": [*c, 60000, 2048],
     "what": "boxes around each other in a tree of %d/%d, in a thread with a stack of 2 MiB" % c}
    for c in ((4, 2), (2, 2), (8, 3), (64, 16))]

check("C22", [job("facts", spec="TraceThreads", parts=2), job("threads", parts=4, budget=(200_000, 2_000_000))],
      models=[mc("MCThreads", "MCThreads", workers=1)])


# Trees of tens of thousands of entries, by classes of keys.
for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C11", "C12", "C13", "C15", "C21"]:
    PLAN[p]["jobs"].append(job("bulk", spec="TraceBulk", parts=3, secs=(8, 120), budget=(0, 0)))
for p in ["C01", "C04"]:
    PLAN[p]["models"] += [mc("MCBulk", "MCBulk"), mc("MCBulk", "MCBulkX", thorough=True, workers=4)]

# What the evidence says about each check.
HISTORIES = ("Random histories of operations on one to three trees in 16 instantiations of the library (key and bounds "
             "types, scalars, 1 to 6 dimensions, owned, borrowed and unsized keys, inexact unions) and 20 configurations, and "
             "behaviours of the design (RTreeAlgo) that TLC generated, replayed; every step is judged by ")
MODEL = " The design models check that the algorithm refines the same contract, exhaustively for the constants in their .cfg."
COVERS = {
    "C01": HISTORIES + "RTree!C01: contents as a multiset, other trees, len, is_empty, count, size_hint." + MODEL,
    "C02": HISTORIES + "RTree!C02: every key of the universe, absent keys, and keys outside all bounds, looked up in all forms." + MODEL,
    "C03": HISTORIES + "RTree!C03: the exact tree after replacing one value." + MODEL,
    "C04": HISTORIES + "RTree!C04: which entry left, and lookups of all keys afterwards." + MODEL,
    "C05": HISTORIES + "RTree!C05: the bounds of every node, and those that filters are shown." + MODEL,
    "C06": HISTORIES + "RTree!C06: depths and sizes of all nodes." + MODEL,
    "C13": HISTORIES + "RTree!C13: what mutable iterations hand out, while all of it is held, and the whole tree afterwards." + MODEL,
    "C15": HISTORIES + "RTree!C15: clones of clones, both sides changed and dropped in any order, the same operation on two equal trees." + MODEL,
    "C07": "Filters that answer from tables (minimal, generous, random; on keys and borrowed forms), iterations drawn in all ways and cut short, on trees grown by random histories; judged by Queries!C07. MCScan: all small trees and all conservative filters.",
    "C08": "The same filters and join filters, with everything they were asked; judged by Queries!C08. MCScan, MCJoin, MCLeftJoin: the machines on all small trees.",
    "C09": "Rankings from tables with ties, None, own Ord types and lower bounds from exact to useless, all ways of drawing, min_by; judged by Queries!C09. MCRank: all small trees and all valid rankings.",
    "C10": "The same rankings with the sequence of calls and yields; judged by Queries!C10. MCRank: every prefix of the machine's run.",
    "C11": "Joins of two trees of different types, sizes and heights, also empty ones; judged by Queries!C11. MCJoin: all pairs of small trees, with the padding of the shorter one.",
    "C12": "Left joins whose inner iterators are advanced, kept and dropped in random order, also after the outer iterator is gone; judged by Queries!C12. MCLeftJoin, and MCRcMut for the memory they share.",
    "C14": "Histories over tracked keys, values and bounds (also zero-sized, large, over-aligned) under a tracking allocator; the ledger is checked after every call by Ownership!Exact. MCRcMut: every order of creating and dropping inner iterators.",
    "C16": "A panic at every user-supplied operation of an operation in turn, then the tree is iterated, used on and dropped; judged by Ownership!Survives. MCPanics: every moment of every operation of all small histories of the design.",
    "C17": "All pairs of boxes on small grids, random boxes and vectors in up to 9 dimensions and 11 scalar types up to the extremes, volumes exact on grids and by their order anywhere; judged by GeometryFacts!F17. MCGeometry: the formulas against the point sets.",
    "C18": "Segments, rays and spheres against boxes and points, axis-parallel, degenerate, touching; judged by GeometryFacts!F18 in exact rational arithmetic. MCGeometry: the formulas against separating axes.",
    "C19": "Distances between points and boxes, lengths and sums of vectors, and nearest-neighbour iterations of trees in up to 9 dimensions; judged by GeometryFacts!F19. MCGeometry: the formulas against minima over the points.",
    "C20": "Every built-in filter with every shape and key kind on trees grown and shrunk at random; judged entry by entry by GeometryFacts!F20.",
    "C21": "All operations on all scalars, dimensions, configurations and extremes, under a watchdog, judged by Total; and the recorders of the other properties, judged by whether anything panicked.",
    "C22": "What the compiler allows for every container and every kind of its parts (exhaustive), judged by Threads!C22; concurrent queries and changes, judged by the contracts of the single operations. MCThreads: the claims called sound are those under which no client reaches a hazard.",
}
BULK = " Trees of up to 40 000 entries, by classes of keys that are treated alike, judged by Bulk (MCBulk: it is a quotient of the contract)."
for p in PLAN:
    if any(j["bin"] == "bulk" for j in PLAN[p]["jobs"]):
        COVERS[p] += BULK
COVERS["C21"] += " The depth of recursion (MCHeight), probed with 60 000 boxes around each other in a small stack."
ASSUMES = ["the recorder's projection of observed values (coordinates to ranks, objects to identities) is faithful",
           "what lies beyond the explored inputs and the constants of the design models is not covered"]
for p in PLAN:
    PLAN[p]["covers"] = COVERS[p]
    PLAN[p]["assumes"] = ASSUMES
