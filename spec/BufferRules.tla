----------------------------- MODULE BufferRules -----------------------------
(***************************************************************************)
(* What a search buffer holds and offers, as a function of what it was     *)
(* offered and what was expanded.                                          *)
(*                                                                         *)
(* A buffer is a sequence of records [id, d, vis, ok]: distance, whether   *)
(* it was expanded, and whether it is live (always TRUE for the buffer     *)
(* used over immutable data).  w is the search window and cap the capacity,*)
(* both counted in live candidates.                                        *)
(***************************************************************************)
EXTENDS Common

LiveCount(b) == Cardinality({i \in 1..Len(b) : b[i].ok})

\* The position of the k-th live candidate, or the end when there are fewer.
RECURSIVE NthLiveFrom(_, _, _)
NthLiveFrom(b, k, i) ==
    IF i > Len(b) THEN Len(b)
    ELSE IF b[i].ok THEN (IF k = 1 THEN i ELSE NthLiveFrom(b, k - 1, i + 1))
    ELSE NthLiveFrom(b, k, i + 1)
NthLive(b, k) == IF k = 0 THEN 0 ELSE NthLiveFrom(b, k, 1)

\* Everything up to the cap-th live candidate is kept, everything when there are fewer.
Trim(b, cap) == SubSeq(b, 1, NthLive(b, cap))

Has(b, id) == \E i \in 1..Len(b) : b[i].id = id

\* The candidate goes behind those that are at least as near.
InsertPos(kind, b, d) == Cardinality({i \in 1..Len(b) : NoWorse(kind, b[i].d, d)}) + 1

InsertAt(b, p, x) == SubSeq(b, 1, p - 1) \o <<x>> \o SubSeq(b, p, Len(b))

Insert(kind, b, x, cap) ==
    IF Has(b, x.id) THEN b
    ELSE Trim(InsertAt(b, InsertPos(kind, b, x.d), x), cap)

\* The search looks at the candidates up to the w-th live one.
Roi(b, w) == NthLive(b, w)
Unvisited(b, w) == {i \in 1..Roi(b, w) : ~b[i].vis}
IsDone(b, w) == Unvisited(b, w) = {}
NextPos(b, w) == CHOOSE i \in Unvisited(b, w) : \A j \in Unvisited(b, w) : i <= j
Visit(b, w) == [b EXCEPT ![NextPos(b, w)].vis = TRUE]

\* Invariants of a buffer, independent of ties.
Sorted(kind, b) == \A i \in 2..Len(b) : NoWorse(kind, b[i - 1].d, b[i].d)
Distinct(b) == \A i, j \in 1..Len(b) : i # j => b[i].id # b[j].id

\* The best live candidates among a set of offered ones (id -> [d, ok]) are all there.
RECURSIVE NearerThan(_, _, _, _)
NearerThan(kind, b, d, i) == IF i = 0 THEN 0 ELSE
    (IF b[i].ok /\ Better(kind, b[i].d, d) THEN 1 ELSE 0) + NearerThan(kind, b, d, i - 1)
=============================================================================
