----------------------------- MODULE MCSearches -----------------------------
(***************************************************************************)
(* The search machines refine the contract of queries: all trees with at   *)
(* most N entries and the given heights, all filters and rankings.         *)
(***************************************************************************)
EXTENDS Searches

CONSTANTS Machine,    \* "scan", "rank", "join", "left_join"
          N0, H0,     \* largest number of entries and height of the tree
          N1, H1,     \* of the right tree (joins)
          Metrics,    \* the metrics of keys (rank)
          Watch       \* the properties to check

VARIABLES m, f, t     \* machine, filter or ranking, trees

P0 == [keys |-> [i \in 1..8 |-> << <<2 * i>>, <<2 * i>> >>], max |-> 9, min |-> 1,
       top |-> 1000, bottom |-> -1000]

\* The ways to divide a sequence into non-empty groups.
RECURSIVE Divisions(_)
Divisions(s) ==
    IF s = <<>> THEN {<<>>}
    ELSE UNION { { <<SubSeq(s, 1, k)>> \o rest : rest \in Divisions(SubSeq(s, k + 1, Len(s))) }
                 : k \in 1..Len(s) }

NodeOf(l, items) == Node(l, UnionAll(P0, l, items), items)

RECURSIVE Arrangements(_, _)
\* All sequences of nodes of level l over the entries es.
Arrangements(es, l) ==
    IF l = 0 THEN { [i \in DOMAIN g |-> NodeOf(0, g[i])] : g \in Divisions(es) }
    ELSE UNION { { [i \in DOMAIN g |-> NodeOf(l, g[i])] : g \in Divisions(a) }
                 : a \in Arrangements(es, l - 1) }

\* Roots without a single child, in all heights.
Roots(n, h) ==
    LET es == [i \in 1..n |-> <<i, i, i>>] IN
    IF n = 0 THEN { NewTree(P0) }
    ELSE UNION { { NodeOf(l, a) : a \in { a \in Arrangements(es, l - 1) : Len(a) > 1 } } : l \in 1..h }
         \cup { NodeOf(0, es) }

SomeTrees(n, h) ==
    UNION { { [root |-> r, it |-> Entries(r), len |-> k, emp |-> k = 0,
               cnt |-> k, hint |-> <<0, -1>>] : r \in Roots(k, h) } : k \in 0..n }

Kids(d) == { Kid(e) : e \in Contents(d) }

\* Every conservative filter: some keys, the groups that contain one of them, and more.
Filters(d) ==
    UNION { LET need == { b \in NodeBounds(d.root) : \E k \in mk : BoxContains(b, P0.keys[k]) }
            IN { [mk |-> mk, acc |-> need \cup more] : more \in SUBSET (NodeBounds(d.root) \ need) }
          : mk \in SUBSET Kids(d) }

\* Every valid ranking.
Rankings(d) ==
    UNION { LET least(b) == { rk[k] : k \in { k \in Kids(d) : BoxContains(b, P0.keys[k]) /\ rk[k] # NONE } }
                ok(b) == IF least(b) = {} THEN Metrics \cup {NONE}
                         ELSE { x \in Metrics : \A y \in least(b) : x <= y }
            IN { [rk |-> rk, bm |-> bm] :
                 bm \in { g \in [NodeBounds(d.root) -> Metrics \cup {NONE}] :
                          \A b \in DOMAIN g : g[b] \in ok(b) } }
          : rk \in [Kids(d) -> Metrics \cup {NONE}] }

\* Join filters: G are the pairs that may seem to match, every other one of them does.  Pairs of
\* groups are accepted because of a pair in G; "more": or without a reason.
JoinFilters(d, e) ==
    LET nb0 == NodeBounds(d.root)
        nb1 == NodeBounds(e.root)
        has(b, k) == BoxContains(b, P0.keys[k])
        pairs == { <<x, y>> : x \in nb0, y \in nb1 }
        kpairs == { <<x, y>> : x \in Kids(d), y \in nb1 }
        base(G, some) ==
            [mk |-> { g \in G : ~some \/ (g[1] + g[2]) % 2 = 0 },
             acc |-> { p \in pairs : \E g \in G : has(p[1], g[1]) /\ has(p[2], g[2]) },
             kacc |-> { p \in kpairs : \E g \in G : p[1] = g[1] /\ has(p[2], g[2]) },
             rb |-> nb1, rk |-> Kids(e), monotone |-> TRUE]
        odd(p) == (p[1][1][1] + p[2][2][1]) % 4 = 0
    IN UNION { { base(G, FALSE), base(G, TRUE),
                 [base(G, TRUE) EXCEPT !.acc = pairs, !.monotone = FALSE],
                 [base(G, FALSE) EXCEPT !.acc = @ \cup { p \in pairs : odd(p) },
                                        !.kacc = kpairs, !.monotone = FALSE] }
               : G \in SUBSET (Kids(d) \X Kids(e)) }

Start(d, e, g) ==
    CASE Machine = "scan" -> ScanInit(d, g)
      [] Machine = "rank" -> RankInit(d, g)
      [] Machine = "join" -> JoinInit(d, e, g)
      [] Machine = "left_join" -> LeftInit(d, e)

Init ==
    \E d \in SomeTrees(N0, H0) :
    \E e \in (IF Machine \in {"join", "left_join"} THEN SomeTrees(N1, H1) ELSE {d}) :
    \E g \in (CASE Machine = "scan" -> Filters(d)
                [] Machine = "rank" -> Rankings(d)
                [] OTHER -> JoinFilters(d, e)) :
       /\ t = (0 :> d @@ 1 :> e)
       /\ f = g
       /\ m = Start(d, e, g)

Next ==
    /\ ~m.done
    /\ m' \in (CASE Machine = "scan" -> { ScanStep(m, f) }
                 [] Machine = "rank" -> RankSteps(m, f)
                 [] Machine = "join" -> { JoinStep(m, f) }
                 [] Machine = "left_join" -> { LeftStep(m, f) })
    /\ UNCHANGED <<f, t>>

Spec == Init /\ [][Next]_<<m, f, t>> /\ WF_<<m, f, t>>(Next)

Query ==
    CASE Machine = "scan" -> ScanQuery(m, f)
      [] Machine = "rank" -> RankQuery(m, f)
      [] Machine = "join" -> JoinQuery(m, f)
      [] Machine = "left_join" -> LeftQuery(m, f)

Ctx == [keys |-> [s \in 0..1 |-> P0.keys], cfg |-> [s \in 0..1 |-> <<9, 1>>],
        tight |-> [s \in 0..1 |-> TRUE], clones |-> <<>>]

\* At every moment what has been asked and yielded is allowed.
Refines ==
    \A p \in Watch :
       (p = "C08" /\ Machine = "left_join" /\ ~f.monotone) \/ Violated(p, Ctx, t, Query, t) = {}

\* No access with the wrong type.
Safe == ~m.trap

Ends == <>m.done
=============================================================================
