#!/usr/bin/env python3
"""selftest.py [spec|trace]: does TLC reject what is wrong?

spec:  mutations of the design and of the formulas, in a copy of spec/; every one of them has to be
       rejected by the model that is named with it.
trace: recorded executions of the unchanged library, with one recorded field changed; the property
       named with the change has to reject them (and accept them without the change).
Not part of any check.
"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check

A, S, R, T, G, B, N = "RTreeAlgo", "Searches", "MCRcMut", "Threads", "Geometry", "Boxes", "RTreePanics"
TREE = "MCRTree:MCRTree1"
MUTATIONS = [
    # the algorithm of the tree
    (A, "IF first\n            THEN Distribute(P, l, SwapAt(vals, n1 + c1, n1 + 1), n1 + 1, g2,",
        "IF first\n            THEN Distribute(P, l, SwapAt(vals, n1 + c1, n1 + 1), n1 + 2, g2,", "MCRTree:MCRTree2"),
    (A, "THEN Len(g2) + left > P.min\n                                         ELSE n1 + left = P.min",
        "THEN TRUE ELSE FALSE", "MCRTree:MCRTree2"),
    (A, "ELSE AddItem(P, Node(n.l, UnionAll(P, n.l, cs), cs), r[2][1])", "ELSE AddItem(P, Node(n.l, n.b, cs), r[2][1])", "MCRTree:MCRTree7"),
    (A, "IF r[2] = <<>> THEN << Node(n.l, BoxUnion(n.b, b), cs), <<>> >>",
        "IF r[2] = <<>> THEN << Node(n.l, n.b, cs), <<>> >>", TREE),
    (A, "IN [n |-> Node(0, UnionAll(P, 0, es), es), found", "IN [n |-> Node(0, n.b, es), found", TREE),
    (A, "IN [n |-> Node(n.l, UnionAll(P, n.l, cs), cs), found", "IN [n |-> Node(n.l, n.b, cs), found", TREE),
    (A, "few == Len(Items(r.n)) < Least(P)", "few == Len(Items(r.n)) < P.min", "MCRTree:MCRTree0"),
    (A, "few == Len(Items(r.n)) < Least(P)", "few == Len(Items(r.n)) + 1 < Least(P)", TREE),
    (A, "THEN Unbranch(n.c[1]) ELSE n", "THEN n.c[1] ELSE n", TREE),
    (A, "IF Cardinality(in) # 1 THEN overwrite", "IF in = {} THEN overwrite", "MCRTree:MCRTreeU"),
    (A, "hits == { i \\in DOMAIN n.c : BoxMeets(n.c[i].b, P.keys[k]) /\\ try(i).found # <<>> }",
        "hits == { i \\in DOMAIN n.c : n.c[i].b[1] = P.keys[k][1] /\\ try(i).found # <<>> }", TREE),
    (A, "ELSE LET i == CHOOSE i \\in hits : \\A j \\in hits : i <= j\n                     r == try(i)",
        "ELSE LET i == CHOOSE i \\in hits : \\A j \\in hits : i >= j\n                     r == try(i)", TREE),
    (A, "THEN LET p == FirstPos(n.e, k) IN IF p = 0 THEN <<>> ELSE <<p>>",
        "THEN LET p == FirstPos(n.e, k) IN IF p = 0 \\/ p = 2 THEN <<>> ELSE <<p>>", TREE),
    (A, "loose |-> IF few THEN Append(r.loose, <<r.n.l, Items(r.n)>>)", "loose |-> IF few THEN << <<r.n.l, Items(r.n)>> >>", "MCRTree:MCRTree8"),
    # the searches
    (S, "!.st = [rest EXCEPT ![l - 1] = Items(x)], !.lv = l - 1", "!.st = [rest EXCEPT ![l - 1] = Tail(Items(x))], !.lv = l - 1", "MCSearches:MCScan"),
    (S, "IF x.b \\in f.acc\n            THEN [m EXCEPT !.st = [rest", "IF TRUE\n            THEN [m EXCEPT !.st = [rest", "MCSearches:MCScan"),
    (S, "RankTop(m) == { h \\in m.heap : \\A g \\in m.heap : h.m < g.m \\/ (h.m = g.m /\\ h.l <= g.l) }",
        "RankTop(m) == { h \\in m.heap : \\A g \\in m.heap : h.l <= g.l }", "MCSearches:MCRank"),
    (S, "RankTop(m) == { h \\in m.heap : \\A g \\in m.heap : h.m < g.m \\/ (h.m = g.m /\\ h.l <= g.l) }",
        "RankTop(m) == { h \\in m.heap : \\A g \\in m.heap : h.l >= g.l }", "MCSearches:MCRank"),
    (S, "i \\in { i \\in DOMAIN items : metric(items[i]) # NONE } }", "i \\in DOMAIN items }", "MCSearches:MCRank"),
    (S, "ELSE IF l0 = 0 /\\ l1 = 0 THEN", "ELSE IF l0 = 0 THEN", "MCSearches:MCJoin"),
    (S, "!.pad = <<top - r0.l, top - r1.l>>", "!.pad = <<0, 0>>", "MCSearches:MCJoin"),
    (S, "IF k = hi THEN <<@[k][1], 1>>", "IF k = hi THEN @[k]", "MCSearches:MCLeftJoinX"),
    (S, "ELSE IF k \\in (l + 1)..(hi - 1) THEN Fresh2(<<>>)", "ELSE IF FALSE THEN Fresh2(<<>>)", "MCSearches:MCLeftJoinX"),
    (S, "[l \\in DOMAIN R |-> Remainder(R[l])]", "[l \\in DOMAIN R |-> R[l][1]]", "MCSearches:MCLeftJoin"),
    (S, "IF nr[2] = <<>> THEN Fresh2(<<>>) ELSE Fresh2(Items(nr[2][1]))", "IF nr[2] = <<>> THEN @ ELSE Fresh2(Items(nr[2][1]))", "MCSearches:MCLeftJoinX"),
    # the shared memory
    (R, "IF shared[b] THEN <<<<>>, [shared EXCEPT ![b] = FALSE]>>\n    ELSE", "IF shared[b] THEN <<<<>>, shared>>\n    ELSE", "MCRcMut:MCRcMut"),
    (R, "IF shared[b] THEN", "IF FALSE THEN", "MCRcMut:MCRcMut"),
    (R, "LET fresh == shared[join]", "LET fresh == FALSE", "MCRcMut:MCRcMut"),
    (R, "(b :> TRUE) @@ (join :> FALSE) @@ shared", "(b :> TRUE) @@ shared", "MCRcMut:MCRcMut"),
    # threads
    (T, '[] mode = "only" -> kind[1] \\/ kind[2]', '[] mode = "only" -> kind[1]', "MCThreads:MCThreads"),
    (T, '[] mode = "only" -> kind[1] \\/ kind[2]', '[] mode = "only" -> TRUE', "MCThreads:MCThreads"),
    (T, '[] mode = "ref" -> kind[2]', '[] mode = "ref" -> kind[1]', "MCThreads:MCThreads"),
    # geometry
    (G, "MaxOf(0, MaxOf(l2 - h1, l1 - h2))", "MaxOf(0, l2 - h1)", "MCGeometry:MCGeometry_boxes"),
    (G, "MaxOf(0, MaxOf(l2 - h1, l1 - h2))", "MaxOf(0, MaxOf(l2 - l1, l1 - h2))", "MCGeometry:MCGeometry_boxes"),
    (G, "{ Rational(b[1][i] - o[i], d[i]), Rational(b[2][i] - o[i], d[i]) }", "{ Rational(b[1][i] - o[i], d[i]) }", "MCGeometry:MCGeometry_segments"),
    (G, "t[1] >= 0 /\\ t[1] <= t[2] }", "t[1] >= 0 }", "MCGeometry:MCGeometry_segments"),
    (G, "LET C == { t \\in Crossings(r[1], r[2], b) : t[1] >= 0 }", "LET C == Crossings(r[1], r[2], b)", "MCGeometry:MCGeometry_rays"),
    (G, "t1[1] * t2[2] = t2[1] * t1[2]", "t1[1] * t2[2] <= 2 * t2[1] * t1[2]", "MCGeometry:MCGeometry_segments"),
    (B, "MaxOf(a[1][i], b[1][i]) <= MinOf(a[2][i], b[2][i])", "MaxOf(a[1][i], b[1][i]) < MinOf(a[2][i], b[2][i])", "MCGeometry:MCGeometry_boxes"),
    (B, "a[1][i] <= b[1][i] /\\ b[2][i] <= a[2][i]", "a[1][i] <= b[1][i] /\\ b[1][i] <= a[2][i]", "MCGeometry:MCGeometry_boxes"),
    (B, "MinOf(a[1][i], b[1][i])", "a[1][i]", "MCGeometry:MCGeometry_boxes"),
    # huge trees
    ("Bulk", "m |-> IF x.n = 0 \\/ x.m = 0 THEN 0 ELSE MIXED", "m |-> 0", "MCBulk:MCBulk"),
    ("Bulk", "[x EXCEPT !.m = IF x.n = 1 \\/ x.m = 0 THEN 0 ELSE MIXED]", "[x EXCEPT !.m = 0]", "MCBulk:MCBulk"),
    ("Bulk", "IF x.n <= 1 THEN [n |-> 0, m |-> 0]", "IF x.n <= 2 THEN [n |-> 0, m |-> 0]", "MCBulk:MCBulk"),
    ("Bulk", "THEN [@[c] EXCEPT !.m = o.mark] ELSE @[c]", "THEN @[c] ELSE @[c]", "MCBulk:MCBulk"),
    ("Bulk", "(o.t :> d[o.s]) @@ d", "(o.t :> Nothing(size)) @@ d", "MCBulk:MCBulk"),
    ("Bulk", "Fresh(x) == IF x.n = 0 THEN More(x)", "Fresh(x) == IF x.n < 2 THEN More(x)", "MCBulk:MCBulk"),
    (A, "few == Len(Items(r.n)) < Least(P)", "few == Len(Items(r.n)) < P.max", "MCRTree:MCRTree8"),
    (A, "THEN Len(g2) + left > P.min\n                                         ELSE n1 + left = P.min",
        "THEN TRUE ELSE FALSE", "MCHeight:MCHeight"),
    # panics
    (N, "IF l = 0 THEN Moment(tree, AllIn(l, out), {}) ELSE Moment(tree, {}, AllIn(l, out))",
        "IF l = 0 THEN Moment(tree, AllIn(l, out) \\cup AllIn(l, Items(tree)), {}) ELSE Moment(tree, {}, AllIn(l, out))", "MCPanics:MCPanics1"),
    (N, "IF n.l = 0 THEN {Moment(r.n, RangeOf(r.found), {})}".replace("IF", "ELSE IF"), "ELSE IF n.l = 0 THEN {Moment(n, RangeOf(r.found), {})}", "MCPanics:MCPanics1"),
    (N, "rest(i) == AllIn(g[1], SubSeq(g[2], i + 1, Len(g[2])))", "rest(i) == AllIn(g[1], SubSeq(g[2], i, Len(g[2])))", "MCPanics:MCPanics1"),
    (N, "{Moment(n.c[1], {}, {})}", "{Moment(n, RangeOf(Entries(n)), {})}", "MCPanics:MCPanics1"),
    (N, "{Moment(r[1], RangeOf(Entries(r[2][1])), {}), Moment(Branch(r), {}, {})}", "{Moment(Branch(r), RangeOf(Entries(r[2][1])), {})}", "MCPanics:MCPanics1"),
]


def mutations():
    bad = n = 0
    for i, (file, old, new, model) in enumerate(MUTATIONS):
        n += 1
        d = tempfile.mkdtemp(prefix="rt-self-")
        try:
            shutil.copytree(check.SPEC, d + "/spec")
            p = f"{d}/spec/{file}.tla"
            s = open(p).read()
            if s.count(old) < 1:
                print("NOT FOUND", file, old)
                bad += 1
                continue
            open(p, "w").write(s.replace(old, new, 1))
            spec, cfg = model.split(":")
            keep, check.SPEC = check.SPEC, d + "/spec"
            rc, o = check.tlc(spec + ".tla", f"{d}/spec/{cfg}.cfg", d + "/m", heap="6g", workers=6, timeout=1500)
            check.SPEC = keep
            what = re.findall(r"(Invariant \w+ is violated|Temporal properties were violated|evaluating .*|Attempted to .*|Assumption .*|.*POSTCONDITION.*|PostCondition.*)", o)
            ok = rc not in (0, -1)
            print("rejected" if ok else "ACCEPTED", i, file, "|", new[:70].replace("\n", " "), "|", what[:1], flush=True)
            bad += not ok
        finally:
            shutil.rmtree(d, ignore_errors=True)
    print(f"{n} mutations, {bad} not rejected")
    return bad


if __name__ == "__main__":
    what = sys.argv[1:] or ["spec", "trace"]
    bad = 0
    if "spec" in what:
        bad += mutations()
    if "trace" in what:
        import selftest_traces
        bad += selftest_traces.run()
    sys.exit(1 if bad else 0)
