------------------------------ MODULE Ownership ------------------------------
(***************************************************************************)
(* Who owns what (C14, C16): the keys, values and bounds objects that a    *)
(* program hands to trees, and the blocks of memory that the library       *)
(* allocates.                                                              *)
(*                                                                         *)
(* State:                                                                  *)
(*   obj    identities of the keys and values that exist and belong to the *)
(*          library                                                        *)
(*   bnd    identities of the bounds objects that exist                    *)
(*   zst    number of existing zero-sized keys and values: they have no    *)
(*          identity and appear as 0                                       *)
(*   trees  tree |-> its entries, pairs of identities of key and value     *)
(*   heap   block |-> its extent <<size, alignment>>                       *)
(*                                                                         *)
(* A step is one call of the library by the program (or one step of an     *)
(* iterator), with everything that happens in it:                          *)
(*   give   objects that the program hands over                            *)
(*   back   objects that the library hands back                            *)
(*   log    <<what, kind, id>> in order: "n" an object is created (cloned, *)
(*          calculated), "d" an object is dropped                          *)
(*   heap   <<what, block, size, alignment>> in order: "a" allocated, "f"  *)
(*          freed, with the extent that the caller of free states          *)
(*   torn   blocks that were written outside their extent or when free     *)
(*   tree   <<tree, entries>>: what trees contain now, as iterated         *)
(*   gone   trees that exist no longer                                     *)
(*   fault  whether a user-supplied operation panicked in the step         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Start == [obj |-> {}, bnd |-> {}, zst |-> 0, trees |-> <<>>, heap |-> <<>>]

RangeOf(s) == { s[i] : i \in DOMAIN s }
Clause(name, ok) == IF ok THEN {} ELSE {name}
NoDup(s) == Cardinality(RangeOf(s)) = Len(s)
Zeros(s) == Len(SelectSeq(s, LAMBDA x : x = 0))
NonZero(s) == { x \in RangeOf(s) : x # 0 }

Keys(es) == [i \in DOMAIN es |-> es[i][1]]
Vals(es) == [i \in DOMAIN es |-> es[i][2]]
Ids(es) == NonZero(Keys(es)) \cup NonZero(Vals(es))
ZerosIn(es) == Zeros(Keys(es)) + Zeros(Vals(es))

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)

---------------------------------------------------------------------------
(* Creating and dropping objects *)

\* a = [obj, bnd, zst, bad]
Happen(a, e) ==
    LET what == e[1]
        kind == e[2]
        id == e[3]
    IN IF id < 0 THEN [a EXCEPT !.bad = @ \cup {"something that is no object is dropped"}]
       ELSE IF id = 0 THEN
            IF what = "n" THEN [a EXCEPT !.zst = @ + 1]
            ELSE [a EXCEPT !.zst = @ - 1,
                           !.bad = @ \cup Clause("an object is dropped twice", a.zst > 0)]
       ELSE IF kind = "b" THEN
            IF what = "n" THEN [a EXCEPT !.bnd = @ \cup {id}]
            ELSE [a EXCEPT !.bnd = @ \ {id},
                           !.bad = @ \cup Clause("a bounds object is dropped twice", id \in a.bnd)]
       ELSE IF what = "n" THEN [a EXCEPT !.obj = @ \cup {id}]
            ELSE [a EXCEPT !.obj = @ \ {id},
                           !.bad = @ \cup Clause("an object is dropped twice", id \in a.obj)]

Objects(s, o) ==
    FoldLeft(Happen,
             [obj |-> s.obj \cup NonZero(o.give), bnd |-> s.bnd,
              zst |-> s.zst + Zeros(o.give), bad |-> {}],
             o.log)

---------------------------------------------------------------------------
(* Memory *)

\* a = [heap, bad]
Memory1(a, e) ==
    LET block == e[2]
        extent == <<e[3], e[4]>>
    IN IF e[1] = "a"
       THEN [heap |-> (block :> extent) @@ a.heap,
             bad |-> a.bad
                \cup Clause("a block is handed out twice", block \notin DOMAIN a.heap)
                \cup Clause("a block of size 0 is requested", e[3] > 0)]
       ELSE [heap |-> [b \in DOMAIN a.heap \ {block} |-> a.heap[b]],
             bad |-> a.bad \cup
                IF block \notin DOMAIN a.heap THEN {"memory is freed that is not allocated"}
                ELSE Clause("a block is freed with another extent than it was allocated with",
                            a.heap[block] = extent)]

Memory(s, o) == FoldLeft(Memory1, [heap |-> s.heap, bad |-> {}], o.heap)

---------------------------------------------------------------------------
TreesAfter(s, o) ==
    LET told == { o.tree[i][1] : i \in DOMAIN o.tree }
        dead == RangeOf(o.gone)
    IN [t \in (DOMAIN s.trees \cup told) \ dead |->
           IF t \in told THEN o.tree[CHOOSE i \in DOMAIN o.tree : o.tree[i][1] = t][2]
           ELSE s.trees[t]]

\* The next state, whatever is wrong with the step.
After(s, o) ==
    LET a == Objects(s, o)
        m == Memory(s, o)
    IN [obj |-> a.obj \ NonZero(o.back), bnd |-> a.bnd, zst |-> a.zst - Zeros(o.back),
        trees |-> TreesAfter(s, o), heap |-> m.heap]

Contents(trees) == UNION { Ids(trees[t]) : t \in DOMAIN trees }
ZerosOf(trees) == SumOver(DOMAIN trees, [t \in DOMAIN trees |-> ZerosIn(trees[t])])

Always(s, o) ==
    Objects(s, o).bad \cup Memory(s, o).bad
    \cup Clause("memory is written outside its extent or after it was freed", o.torn = <<>>)
    \cup Clause("an object is handed back that is dropped or was never there",
                /\ NonZero(o.back) \subseteq Objects(s, o).obj
                /\ NoDup(SelectSeq(o.back, LAMBDA x : x # 0))
                /\ Zeros(o.back) <= Objects(s, o).zst)
    \cup Clause("what a tree contains exists, once",
                LET n == TreesAfter(s, o)
                IN \A i \in DOMAIN o.tree :
                     LET es == o.tree[i][2]
                         ids == SelectSeq(Keys(es) \o Vals(es), LAMBDA x : x # 0)
                     IN /\ RangeOf(ids) \subseteq After(s, o).obj
                        /\ NoDup(ids)
                        /\ \A t \in DOMAIN n : t # o.tree[i][1] => Ids(n[t]) \cap RangeOf(ids) = {})

\* C14: every step, if no user-supplied operation panics.
Exact(s, o) ==
    Always(s, o)
    \cup Clause("an operation panics", ~o.fault)
    \cup LET n == After(s, o)
         IN Clause("every key and value is in a tree, or handed back, or dropped",
                   n.obj = Contents(n.trees) /\ n.zst = ZerosOf(n.trees))
            \cup IF o.op # "end" THEN {}
                 ELSE Clause("all bounds objects are dropped in the end", n.bnd = {})
                      \cup Clause("all memory is freed in the end", DOMAIN n.heap = {})

\* C16: every step, and what follows a panic.  o.about: the trees that take
\* part in a step that panicked.
Survives(s, o) ==
    Always(s, o)
    \cup IF ~o.fault THEN Clause("a tree cannot be iterated or dropped after a panic", o.op # "stuck")
         ELSE Clause("after a panic a tree yields only what was stored or being inserted",
                     \A i \in DOMAIN o.tree :
                        LET t == o.tree[i][1]
                            before == IF t \in DOMAIN s.trees THEN s.trees[t] ELSE <<>>
                        IN /\ Ids(o.tree[i][2]) \subseteq Ids(before) \cup NonZero(o.give)
                           /\ Len(o.tree[i][2]) <= Len(before) + 1)

Violated(P, s, o) == IF P = "C14" THEN Exact(s, o) ELSE Survives(s, o)
=============================================================================
