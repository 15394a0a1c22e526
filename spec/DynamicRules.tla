----------------------------- MODULE DynamicRules -----------------------------
(***************************************************************************)
(* What each operation of the dynamic index may do to its state.           *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   n   number of slots (0 .. n-1),                                       *)
(*   st  slot -> "V" (live), "D" (soft-deleted: still routes), "E" (empty),*)
(*   id  slot -> external id ("-" unless live),                            *)
(*   g   slot -> set of slots (out-neighbours),                            *)
(*   ep  the entry point.                                                  *)
(* Rules are relations between the state before (S) and after (T); the     *)
(* choices the implementation makes (slots for new vectors, edges kept by  *)
(* pruning, the replacement entry point) are left open within the bounds   *)
(* that the graph algorithms define.                                       *)
(***************************************************************************)
EXTENDS Common

Slots(S) == 0..(S.n - 1)
Live(S) == {s \in Slots(S) : S.st[s] = "V"}
Tomb(S) == {s \in Slots(S) : S.st[s] = "D"}
Routed(S) == Live(S) \union Tomb(S)
Ids(S) == {S.id[s] : s \in Live(S)}
SlotOf(S, x) == CHOOSE s \in Live(S) : S.id[s] = x

(***************************************************************************)
(* State invariants.                                                       *)
(***************************************************************************)
\* Each live id has a slot of its own.
SlotsOK(S) ==
    /\ Cardinality(Ids(S)) = Cardinality(Live(S))
    /\ \A s \in Slots(S) : S.st[s] # "V" <=> S.id[s] = "-"

\* Edges of routing vertices: bounded, no self-edges, never to an empty slot.
GraphOK(S, deg) ==
    \A u \in Routed(S) :
        /\ Cardinality(S.g[u]) <= deg
        /\ u \notin S.g[u]
        /\ S.g[u] \subseteq Routed(S)

EntryOK(S) == S.n > 0 => S.ep \in Routed(S)

(***************************************************************************)
(* Operations.                                                             *)
(***************************************************************************)
\* Only the given ids become live; every other slot keeps its role.
AddSlots(S, T, ids) ==
    LET new == {t \in Live(T) : T.id[t] \in ids}
    IN /\ T.n >= S.n
       /\ T.n <= S.n + Cardinality(ids)
       /\ Cardinality(new) = Cardinality(ids)
       /\ \A t \in new : IF t >= S.n THEN TRUE ELSE S.st[t] = "E"
       /\ \A s \in Slots(T) \ new :
            IF s < S.n THEN T.st[s] = S.st[s] /\ T.id[s] = S.id[s] ELSE T.st[s] = "E"

\* Old vertices only gain edges to new ones (and may lose some by pruning); new vertices
\* only link to vertices that route.
AddGraph(S, T, ids) ==
    LET new == {t \in Live(T) : T.id[t] \in ids}
    IN /\ \A u \in Routed(S) : T.g[u] \subseteq S.g[u] \union new
       /\ \A t \in new : T.g[t] \subseteq (Routed(S) \union new) \ {t}
       /\ T.ep = S.ep

DeleteSlots(S, T, ids) ==
    /\ T.n = S.n
    /\ \A s \in Slots(S) :
         IF S.st[s] = "V" /\ S.id[s] \in ids
         THEN T.st[s] = "D" /\ T.id[s] = "-"
         ELSE T.st[s] = S.st[s] /\ T.id[s] = S.id[s]

SameGraph(S, T) == T.n = S.n /\ T.ep = S.ep /\ \A u \in Routed(S) : T.g[u] = S.g[u]

\* What pruning may choose from when u is repaired: its own live neighbours and the live
\* neighbours of its deleted ones.
RepairPool(S, u) ==
    LET D == Tomb(S)
        own == S.g[u]
    IN ((own \union UNION {S.g[v] : v \in own \cap D}) \cap Live(S)) \ {u}

\* With nothing left alive the entry point's slot is kept, without neighbours, so that later
\* insertions have somewhere to start from.
ConsolidateSlots(S, T) ==
    /\ T.n = S.n
    /\ \A s \in Slots(S) :
         /\ T.id[s] = S.id[s]
         /\ T.st[s] = IF S.st[s] = "D"
                      THEN (IF Live(S) = {} /\ s = S.ep THEN "D" ELSE "E")
                      ELSE S.st[s]

ConsolidateGraph(S, T, maxCandidates) ==
    /\ \A u \in Live(S) :
         IF S.g[u] \cap Tomb(S) = {}
         THEN T.g[u] = S.g[u]
         ELSE /\ T.g[u] \subseteq RepairPool(S, u)
              /\ (maxCandidates >= 2 /\ RepairPool(S, u) # {}) => T.g[u] # {}
    /\ Live(S) = {} => T.g[S.ep] = {}
    /\ IF S.st[S.ep] = "D" /\ Live(S) # {} THEN T.ep \in Live(S) ELSE T.ep = S.ep

\* Where compaction moves the surviving slots: live ones by their ids, soft-deleted ones in
\* order over the slots that are left.
CompactMap(S, T) ==
    LET lv == Live(S)
        rest == Slots(T) \ {SlotOf(T, S.id[s]) : s \in lv}
        nth(k) == CHOOSE t \in rest : RankIn(rest, t) = k
    IN [s \in Routed(S) |->
            IF s \in lv THEN SlotOf(T, S.id[s]) ELSE nth(RankIn(Tomb(S), s))]

CompactSlots(S, T) ==
    /\ T.n = Cardinality(Routed(S))
    /\ Ids(T) = Ids(S)
    /\ Cardinality(Live(T)) = Cardinality(Live(S))
    /\ \A s \in Slots(T) : T.st[s] = "V" \/ T.st[s] = "D"

CompactGraph(S, T) ==
    LET m == CompactMap(S, T)
    IN /\ \A u \in Routed(S) : T.g[m[u]] = {m[v] : v \in S.g[u]}
       /\ T.ep = m[S.ep]

\* Saving consolidates and compacts.
SaveSlots(S, T) ==
    /\ T.n = Cardinality(Live(S))
    /\ Ids(T) = Ids(S)
    /\ Live(T) = Slots(T)

SaveGraph(S, T, maxCandidates) ==
    LET m == [s \in Live(S) |-> SlotOf(T, S.id[s])]
        back == [t \in Slots(T) |-> SlotOf(S, T.id[t])]
        \* The consolidated state before its slots were renumbered.
        U == [n |-> S.n,
              st |-> [s \in Slots(S) |-> IF S.st[s] = "V" THEN "V" ELSE "E"],
              id |-> S.id,
              g |-> [s \in Slots(S) |->
                        IF S.st[s] = "V" THEN {back[t] : t \in T.g[m[s]]} ELSE {}],
              ep |-> back[T.ep]]
    IN ConsolidateGraph(S, U, maxCandidates)

\* The same index up to a renumbering of slots.
SameUpToSlots(S, T) ==
    LET m == CompactMap(S, T)
    IN /\ T.n = S.n
       /\ Ids(T) = Ids(S)
       /\ T.ep = m[S.ep]
       /\ \A u \in Routed(S) : T.g[m[u]] = {m[v] : v \in S.g[u]}

(***************************************************************************)
(* Answers.  content: id -> vector; ids/ds: the answer, "-" marks a        *)
(* missing result.                                                         *)
(***************************************************************************)
Found(ids) == {i \in 1..Len(ids) : ids[i] # "-"}

AnswerSound(kind, content, q, ids, ds) ==
    /\ \A i, j \in 1..Len(ids) : i < j => (ids[i] = "-" => ids[j] = "-")
    /\ \A i \in Found(ids) : ids[i] \in DOMAIN content
    /\ \A i, j \in Found(ids) : i # j => ids[i] # ids[j]
    /\ \A i \in Found(ids) : SameDist(kind, ds[i], Dist(kind, q, content[ids[i]]))
    /\ \A i \in Found(ids) : i > 1 => NoWorse(kind, ds[i - 1], ds[i])

\* The answer lists the k nearest of the given ids (any order among equals).
AnswerExact(kind, content, q, among, k, ids, ds) ==
    LET d == [x \in among |-> Dist(kind, q, content[x])]
        want == Take(SortedDistances(kind, among, d), k)
        got == [i \in 1..Cardinality(Found(ids)) |-> ds[i]]
    IN /\ Len(ids) = k
       /\ Len(got) = Len(want)
       /\ \A i \in 1..Len(want) : SameDist(kind, got[i], want[i])
       /\ \A i \in Found(ids) : ids[i] \in among

\* The live ids that a search can get to.
ReachableIds(S) ==
    {S.id[s] : s \in (ReachFrom([u \in Slots(S) |-> IF S.st[u] = "E" THEN {} ELSE S.g[u]],
                                {S.ep}) \cap Live(S))}
=============================================================================
