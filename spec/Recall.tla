------------------------------- MODULE Recall -------------------------------
(***************************************************************************)
(* Recall k at n: how many of the first k true neighbours are among the    *)
(* first n results of the same query (core/recall.h).                      *)
(***************************************************************************)
EXTENDS Common

Hits(gt, res, k, n) == Cardinality(Range(Take(gt, k)) \cap Range(Take(res, n)))
AllHits(gts, ress, k, n) ==
    SumSeq([q \in 1..Len(gts) |-> Hits(gts[q], ress[q], k, n)])
\* 0 stands for the number of columns of the result, for k and for n.
Effective(x, rcols) == IF x = 0 THEN rcols ELSE x
Accepted(gts, ress, gcols, rcols, k, n) ==
    LET ke == Effective(k, rcols)
        ne == Effective(n, rcols)
    IN Len(gts) = Len(ress) /\ ke <= ne /\ ke <= gcols /\ ne <= rcols

-----------------------------------------------------------------------------
\* What the rule implies, over all small matrices: the model walks one query at a time, as
\* the code does, and counts.
CONSTANTS Ids, Cols, Queries
VARIABLES gts, ress, k, n, q, count
dvars == <<gts, ress, k, n, q, count>>
Lists == [1..Cols -> Ids]
Distinct == {s \in Lists : NoDup(s)}
DInit == /\ gts \in [1..Queries -> Distinct] /\ ress \in [1..Queries -> Lists]
         /\ n \in 1..Cols /\ k \in 1..n /\ q = 1 /\ count = 0
\* One true neighbour after the other, and for each a scan of the results.
Found(x, s, m) == \E i \in 1..m : s[i] = x
DNext == /\ q <= Queries
         /\ count' = count + Cardinality({i \in 1..k : Found(gts[q][i], ress[q], n)})
         /\ q' = q + 1
         /\ UNCHANGED <<gts, ress, k, n>>
DSpec == DInit /\ [][DNext]_dvars
AtEnd == q > Queries =>
    /\ count = AllHits(gts, ress, k, n)
    /\ count <= k * Queries
    /\ (\A i \in 1..Queries : gts[i] = ress[i]) => count = k * Queries
    /\ \A m \in n..Cols : AllHits(gts, ress, k, m) >= count
=============================================================================
