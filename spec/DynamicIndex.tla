----------------------------- MODULE DynamicIndex -----------------------------
(***************************************************************************)
(* The dynamic index as a transition system, within the rules that the     *)
(* recorded histories of the real index are checked against.  TLC explores *)
(* every behaviour over a few ids, values and slots: whatever the          *)
(* implementation chooses within the rules, the guarantees below hold.     *)
(***************************************************************************)
EXTENDS DynamicRules

CONSTANTS IdPool, Values, MaxSlots, Deg, MaxCandidates, MaxBatch,
          WithDisk      \* whether a saved index is kept and may be reloaded

VARIABLES S,      \* state, see DynamicRules
          vec,    \* slot -> value stored there (0 when nothing was ever stored)
          live,   \* id -> value: what the calls so far define
          disk,   \* the saved index: a record with S and vec, or <<>>
          last    \* the last operation
vars == <<S, vec, live, disk, last>>

Nodes(n) == 0..(n - 1)
Lists(n, deg) == {x \in SUBSET Nodes(n) : Cardinality(x) <= deg}
\* All states with n slots, given roles and ids; empty slots are shown without edges.
Graphs(n, st) ==
    LET routed == {s \in Nodes(n) : st[s] # "E"}
        lists(u) == {x \in SUBSET (routed \ {u}) : Cardinality(x) <= Deg}
        all == {x \in SUBSET routed : Cardinality(x) <= Deg}
    IN {g \in [Nodes(n) -> all] :
            \A u \in Nodes(n) : IF u \in routed THEN u \notin g[u] ELSE g[u] = {}}

Init ==
    /\ \E ids \in SUBSET IdPool, v \in [IdPool -> Values] :
         /\ ids # {}
         /\ LET n == Cardinality(ids)
                order == CHOOSE f \in [Nodes(n) -> ids] : \A i, j \in Nodes(n) : i # j => f[i] # f[j]
                st == [s \in Nodes(n) |-> "V"]
            IN /\ n <= MaxSlots
               /\ \E g \in Graphs(n, st), ep \in Nodes(n) :
                    S = [n |-> n, st |-> st, id |-> order, g |-> g, ep |-> ep]
               /\ vec = [s \in Nodes(n) |-> v[order[s]]]
               /\ live = [x \in ids |-> v[x]]
    /\ disk = <<>>
    /\ last = "build"

Injections(A, B) == {f \in [A -> B] : \A x, y \in A : x # y => f[x] # f[y]}

Add ==
    \E ids \in SUBSET (IdPool \ DOMAIN live), w \in [IdPool -> Values] :
      /\ ids # {} /\ Cardinality(ids) <= MaxBatch
      /\ \E n \in S.n..Min(MaxSlots, S.n + Cardinality(ids)) :
           \E place \in Injections(ids, {t \in Nodes(n) : IF t >= S.n THEN TRUE ELSE S.st[t] = "E"}) :
             LET at == {place[x] : x \in ids}
                 idOf == [t \in at |-> CHOOSE x \in ids : place[x] = t]
                 st == [t \in Nodes(n) |-> IF t \in at THEN "V"
                                          ELSE IF t < S.n THEN S.st[t] ELSE "E"]
                 id == [t \in Nodes(n) |-> IF t \in at THEN idOf[t]
                                          ELSE IF t < S.n THEN S.id[t] ELSE "-"]
             IN /\ \E g \in Graphs(n, st) :
                     LET T == [n |-> n, st |-> st, id |-> id, g |-> g, ep |-> S.ep]
                     IN AddSlots(S, T, ids) /\ AddGraph(S, T, ids) /\ S' = T
                /\ vec' = [t \in Nodes(n) |-> IF t \in at THEN w[idOf[t]]
                                             ELSE IF t < S.n THEN vec[t] ELSE 0]
      /\ live' = [x \in DOMAIN live \union ids |-> IF x \in ids THEN w[x] ELSE live[x]]
      /\ last' = "add"
      /\ UNCHANGED disk

Delete ==
    \E ids \in SUBSET DOMAIN live :
      /\ ids # {}
      /\ S' = [S EXCEPT !.st = [s \in Nodes(S.n) |->
                                   IF S.st[s] = "V" /\ S.id[s] \in ids THEN "D" ELSE S.st[s]],
                        !.id = [s \in Nodes(S.n) |-> IF S.id[s] \in ids THEN "-" ELSE S.id[s]]]
      /\ Assert(DeleteSlots(S, S', ids) /\ SameGraph(S, S'), "delete")
      /\ live' = [x \in DOMAIN live \ ids |-> live[x]]
      /\ last' = "del"
      /\ UNCHANGED <<vec, disk>>

Consolidate ==
    LET st == [s \in Nodes(S.n) |->
                 IF S.st[s] = "D" THEN (IF Live(S) = {} /\ s = S.ep THEN "D" ELSE "E")
                 ELSE S.st[s]]
    IN /\ \E g \in Graphs(S.n, st), ep \in Nodes(S.n) :
            LET T == [S EXCEPT !.st = st, !.g = g, !.ep = ep]
            IN /\ ConsolidateSlots(S, T)
               /\ ConsolidateGraph(S, T, MaxCandidates)
               /\ S' = T
       /\ last' = "consolidate"
       /\ UNCHANGED <<vec, live, disk>>

\* Renumbering in order, as the implementation does it.
Squeezed(X) ==
    LET keep == Routed(X)
        nth == [t \in Nodes(Cardinality(keep)) |-> CHOOSE s \in keep : RankIn(keep, s) = t]
        n == Cardinality(keep)
    IN [n |-> n,
        st |-> [t \in Nodes(n) |-> X.st[nth[t]]],
        id |-> [t \in Nodes(n) |-> X.id[nth[t]]],
        g |-> [t \in Nodes(n) |-> {RankIn(keep, v) : v \in X.g[nth[t]]}],
        ep |-> RankIn(keep, X.ep)]
SqueezedVec(X) ==
    LET keep == Routed(X)
    IN [t \in Nodes(Cardinality(keep)) |-> vec[CHOOSE s \in keep : RankIn(keep, s) = t]]

Compact ==
    /\ S' = Squeezed(S)
    /\ vec' = SqueezedVec(S)
    /\ Assert(CompactSlots(S, S') /\ CompactGraph(S, S'), "compact")
    /\ last' = "compact"
    /\ UNCHANGED <<live, disk>>

Save ==
    /\ Live(S) # {}
    /\ LET st == [s \in Nodes(S.n) |-> IF S.st[s] = "D" THEN "E" ELSE S.st[s]]
       IN \E g \in Graphs(S.n, st), ep \in Nodes(S.n) :
            LET U == [S EXCEPT !.st = st, !.g = g, !.ep = ep]
            IN /\ ConsolidateSlots(S, U)
               /\ ConsolidateGraph(S, U, MaxCandidates)
               /\ S' = Squeezed(U)
               /\ vec' = SqueezedVec(U)
               /\ Assert(SaveSlots(S, S') /\ SaveGraph(S, S', MaxCandidates), "save")
    /\ disk' = IF WithDisk THEN [S |-> S', vec |-> vec', live |-> live] ELSE <<>>
    /\ last' = "save"
    /\ UNCHANGED live

Reload ==
    /\ disk # <<>>
    /\ S' = disk.S
    /\ vec' = disk.vec
    /\ live' = disk.live
    /\ last' = "reload"
    /\ UNCHANGED disk

Next == Add \/ Delete \/ Consolidate \/ Compact \/ Save \/ Reload
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Guarantees.                                                             *)
(***************************************************************************)
IdsExact == Ids(S) = DOMAIN live /\ SlotsOK(S)                              \* C01
ContentBound == \A s \in Live(S) : vec[s] = live[S.id[s]]                   \* C03
WellFormed == GraphOK(S, Deg) /\ EntryOK(S)                                 \* C04
\* After consolidation no edge of a live vertex leads to a deleted one.
NoDeadEdges ==
    last \in {"consolidate", "save", "reload"} /\ Live(S) # {} =>
        Tomb(S) = {} /\ \A u \in Live(S) : S.g[u] \subseteq Live(S)
\* Every search ends in live vectors only, and everything reachable is a routing slot.
SearchSafe == LET R == ReachFrom(S.g, {S.ep}) IN R \subseteq Routed(S)      \* C02
CompactedFull == last \in {"save", "reload"} => Live(S) = Slots(S)

\* Compaction and reload show the same index up to slot numbers (C05).
EdgesById(X) == {e \in (Ids(X) \X Ids(X)) :
                    SlotOf(X, e[2]) \in X.g[SlotOf(X, e[1])]}
SameAnswers == [][last' = "compact" =>
                    /\ EdgesById(S') = EdgesById(S)
                    /\ ReachableIds(S') = ReachableIds(S)]_vars
SaveOfConsolidated == [][last' = "save" /\ Tomb(S) = {} =>
                    /\ EdgesById(S') = EdgesById(S)
                    /\ ReachableIds(S') = ReachableIds(S)]_vars
=============================================================================
