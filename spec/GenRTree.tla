------------------------------ MODULE GenRTree ------------------------------
(***************************************************************************)
(* Random behaviours of the design (RTreeAlgo), as histories to replay in  *)
(* the real library: a tree grows, changes and shrinks again; now and then *)
(* it is cloned, and both go on.  Every step of the design is checked      *)
(* against the contract here too, on trees larger than those of MCRTree.   *)
(*                                                                         *)
(* Run in simulation mode; a finished behaviour is printed as one line of  *)
(* JSON: [keys, cfg, ops, rare], where an operation is <<name, slot, key>>  *)
(* and rare counts steps that need a special constellation.                *)
(***************************************************************************)
EXTENDS MCRTree, Json

CONSTANTS Steps      \* operations in a behaviour

VARIABLES hist, rare, cfg, keys

gvars == <<d, bad, last, hist, rare, cfg, keys>>

\* Configurations and key sets that a behaviour may start with.
Cfgs == << <<2, 1>>, <<2, 1>>, <<3, 1>>, <<3, 2>>, <<4, 2>>, <<4, 1>>, <<2, 0>>, <<2, 2>>, <<5, 3>>, <<4, 4>> >>

Side == 7
RandomBox(i) ==
    LET x == RandomElement(0..Side)
        y == RandomElement(0..Side)
        w == RandomElement({0, 0, 1, 2, Side})
        h == RandomElement({0, 1, 1, 3})
    IN << <<x, y>>, <<MinOf(x + w, Side), MinOf(y + h, Side)>> >>
\* All coordinates occur, so that replays can number them.
RandomKeys(n) ==
    [i \in 1..4 |-> << <<2 * (i - 1), 2 * (i - 1)>>, <<2 * i - 1, 2 * i - 1>> >>]
    \o [i \in 1..n |-> RandomBox(i)]

Q == [keys |-> keys, max |-> cfg[1], min |-> cfg[2], top |-> 1000, bottom |-> -1000]
GCtx == [keys |-> [s \in 0..1 |-> keys], cfg |-> [s \in 0..1 |-> cfg],
         tight |-> [s \in 0..1 |-> TRUE], clones |-> <<1>>]

GInit ==
    /\ cfg = <<0, 0>> /\ keys = <<>> /\ d = <<>> /\ bad = {} /\ last = <<"new">>
    /\ hist = <<>> /\ rare = <<0, 0, 0, 0, 0, 0>>

\* Every behaviour chooses its configuration and keys in its first step.
Choose ==
    /\ cfg = <<0, 0>>
    /\ cfg' = Cfgs[RandomElement(DOMAIN Cfgs)]
    /\ keys' = RandomKeys(RandomElement({0, 3, 6, 10}))
    /\ d' = (0 :> Observed(NewTree([keys |-> keys', top |-> 1000, bottom |-> -1000])))
    /\ UNCHANGED <<bad, last, hist, rare>>

Count(i) == [rare EXCEPT ![i] = @ + 1]
Levels(t) == t.root.l

\* What the library would be asked to do next: mostly to grow in the first half, then to change,
\* then to shrink.
Op ==
    LET n == Len(hist)
        x == RandomElement(1..16)
        phase == (3 * n) \div Steps
        ins == <<13, 8, 3>>[phase + 1]
    IN IF x = 16 THEN (IF 1 \in DOMAIN d THEN "drop" ELSE "clone")
       ELSE IF x <= ins THEN RandomElement({"insert", "insert", "insert_unique"})
       ELSE "remove"

Key(op, s) ==
    IF op = "remove" /\ d[s].it # <<>> /\ RandomElement(1..8) > 1
    THEN Kid(RandomElement(Contents(d[s])))
    ELSE RandomElement(DOMAIN keys)

Observe(o, d1, r) ==
    /\ d' = d1
    /\ bad' = UNION { Violated(p, GCtx, d, o, d1) : p \in {"C01", "C03", "C04", "C05", "C06", "C15"} }
    /\ rare' = r
    /\ UNCHANGED <<last, cfg, keys>>

Deed(op, s, k) ==
    /\ hist' = Append(hist, <<op, s, k>>)
    /\ CASE op = "insert" ->
              LET e == <<k, Len(hist) + 1, Len(hist) + 1>>
                  t == Observed(InsertEntry(Q, d[s].root, e))
              IN Observe([op |-> op, s |-> s, e |-> e], [d EXCEPT ![s] = t],
                         IF Levels(t) > Levels(d[s]) THEN Count(1) ELSE rare)
         [] op = "insert_unique" ->
              LET e == <<k, Len(hist) + 1, Len(hist) + 1>>
                  u == InsertUnique(Q, d[s].root, e)
                  p == Find(Q, d[s].root, k)
              IN Observe([op |-> op, s |-> s, e |-> e, res |-> u.res], [d EXCEPT ![s] = Observed(u.root)],
                         IF p # <<>> /\ Levels(d[s]) > 0 THEN Count(2) ELSE rare)
         [] op = "remove" ->
              LET r == RemoveIn(Q, d[s].root, k)
                  u == RemoveEntry(Q, d[s].root, k)
                  t == Observed(u.root)
              IN Observe([op |-> op, s |-> s, k |-> k, res |-> u.res, gets |-> <<>>],
                         [d EXCEPT ![s] = t],
                         IF Len(r.loose) >= 2 THEN Count(4)
                         ELSE IF Levels(t) < Levels(d[s]) - 1 THEN Count(5)
                         ELSE IF Len(r.loose) = 1 THEN Count(3) ELSE rare)
         [] op = "clone" ->
              Observe([op |-> op, s |-> 0, to |-> 1, gens |-> <<>>], d @@ (1 :> d[0]), Count(6))
         [] op = "drop" ->
              Observe([op |-> op, s |-> 1], (0 :> d[0]), rare)

Report ==
    /\ Len(hist) = Steps
    /\ PrintT("@@" \o ToJson([keys |-> keys, cfg |-> cfg, ops |-> hist, rare |-> rare]))
    /\ hist' = Append(hist, <<"end", 0, 0>>)
    /\ UNCHANGED <<d, bad, last, rare, cfg, keys>>

GNext ==
    \/ Choose
    \/ /\ Len(hist) < Steps /\ cfg # <<0, 0>>
       /\ \E op \in {Op} : \E s \in {RandomElement(DOMAIN d)} : \E k \in {Key(op, s)} : Deed(op, s, k)
    \/ Report

GSpec == GInit /\ [][GNext]_gvars
=============================================================================
