---------------------------- MODULE ClusterRules ----------------------------
(***************************************************************************)
(* What a clustering is, how a vector is assigned, what reducing cluster   *)
(* sizes may do, which clusters a search scans.                            *)
(*                                                                         *)
(* A clustering is a function from centroids to sequences of <<leaf,       *)
(* distance>>.                                                             *)
(***************************************************************************)
EXTENDS VamanaOps

\* d is within the factor 1 + eps (a pair) of the nearest distance d0.
Within(kind, eps, d0, d) ==
    LET grown == eps[1] + eps[2] IN
    IF kind = "L2" THEN d * eps[2] <= d0 * grown
    ELSE IF d0 > 0 THEN d * grown >= d0 * eps[2]
    ELSE d * eps[2] >= d0 * grown

Leaves(cl, c) == {cl[c][i][1] : i \in 1..Len(cl[c])}
AllLeaves(cl) == UNION {Leaves(cl, c) : c \in DOMAIN cl}
CopiesOf(cl, x) == Cardinality({c \in DOMAIN cl : x \in Leaves(cl, c)})
OnceEach(cl) == \A c \in DOMAIN cl : Cardinality(Leaves(cl, c)) = Len(cl[c])

\* The centroids a vector goes to. near: what the primary index found for it, nearest first, as
\* <<centroid, distance>>; dc the distances between centroids.
RECURSIVE Prefix(_, _, _, _)
Prefix(kind, eps, near, i) ==
    IF i > Len(near) \/ ~Within(kind, eps, near[1][2], near[i][2]) THEN SubSeq(near, 1, i - 1)
    ELSE Prefix(kind, eps, near, i + 1)
Homes(kind, eps, alpha, replicas, near, dc) ==
    LET close == Prefix(kind, eps, near, 1)
        pool == [i \in 1..Len(close) |-> [id |-> close[i][1], d |-> close[i][2]]]
    IN Range(PruneLegacy(kind, alpha, pool, -1, dc, replicas + 1))

\* Reduction of cluster sizes, one cluster after the other in some order: from the farthest
\* leaf on, leaves that have another copy go, until the cluster fits.
RECURSIVE Drop(_, _, _, _, _)
Drop(seq, i, excess, count, out) ==
    IF i = 0 THEN [left |-> out, excess |-> excess, count |-> count]
    ELSE IF excess > 0 /\ count[seq[i][1]] > 1
         THEN Drop(seq, i - 1, excess - 1, [count EXCEPT ![seq[i][1]] = @ - 1], out)
         ELSE Drop(seq, i - 1, excess, count, <<seq[i]>> \o out)
ReduceOne(seq, limit, count) ==
    Drop(seq, Len(seq), IF Len(seq) > limit THEN Len(seq) - limit ELSE 0, count, <<>>)

\* Whether going through the clusters in some order runs into one that cannot be made to fit.
RECURSIVE SomeOrderFails(_, _, _, _)
SomeOrderFails(cl, todo, limit, count) ==
    \E c \in todo :
        LET r == ReduceOne(cl[c], limit, count) IN
        r.excess > 0 \/ SomeOrderFails(cl, todo \ {c}, limit, r.count)
Counts(cl) == [x \in AllLeaves(cl) |-> CopiesOf(cl, x)]
MayFail(cl, limit) ==
    LET big == {c \in DOMAIN cl : Len(cl[c]) > limit}
    IN SomeOrderFails(cl, big, limit, TLCEval(Counts(cl)))

\* What reducing may make of a clustering.
GoodReduction(old, new, limit) ==
    /\ DOMAIN new = DOMAIN old
    /\ AllLeaves(new) = AllLeaves(old)
    /\ OnceEach(new)
    /\ \A c \in DOMAIN old :
         /\ Range(new[c]) \subseteq Range(old[c])
         /\ Len(new[c]) = Min(Len(old[c]), limit)
=============================================================================
