--------------------------- MODULE InvertedSearch ---------------------------
(***************************************************************************)
(* The second phase of a search in an inverted index: the centroids that   *)
(* the primary search found, nearest first, are gone through until one is  *)
(* outside the cut-off; the leaves of each, then the centroid itself, go   *)
(* into a buffer of k places.  A vector in several clusters is met again.  *)
(***************************************************************************)
EXTENDS ClusterRules, BufferRules, SequencesExt
CONSTANTS NC, NL, Kinds, MinD, MaxD, Epsilons, MaxK
VARIABLES kind, eps, k, d, member, found, j, todo, buf, done
vars == <<kind, eps, k, d, member, found, j, todo, buf, done>>
F == INSTANCE Flat WITH MaxN <- 0, MaxQ <- 0, MaxK <- 0, MaxD <- 0, Threads <- {}, n <- 0,
        nq <- 0, db <- 0, qb <- 0, admitted <- {}, start <- 0, next <- 0,
        work <- 0, heap <- 0

Cents == 0..(NC - 1)
Leafs == NC..(NC + NL - 1)
Eps == {<<0, 1>>, <<1, 2>>, <<2, 1>>}

Init == /\ kind \in Kinds /\ eps \in Epsilons /\ k \in 1..MaxK
        /\ d \in [Cents \union Leafs -> (IF kind = "L2" THEN 0 ELSE 0 - MinD)..MaxD]
        \* The clusters a leaf is in.
        /\ member \in [Leafs -> SUBSET Cents \ {{}}]
        /\ \E s \in SUBSET Cents \ {{}} :
              found \in {f \in SetToSeqs(s) :
                            \A i \in 2..Len(f) : NoWorse(kind, d[f[i - 1]], d[f[i]])}
        /\ j = 1 /\ buf = <<>> /\ done = FALSE
        /\ todo = {x \in Leafs : found[1] \in member[x]}

Put(x) == buf' = Insert(kind, buf, [id |-> x, d |-> d[x], vis |-> FALSE, ok |-> TRUE], k)
ScanLeaf == /\ ~done /\ \E x \in todo : Put(x) /\ todo' = todo \ {x}
            /\ UNCHANGED <<kind, eps, k, d, member, found, j, done>>
Inside(i) == i <= Len(found) /\ Within(kind, eps, d[found[1]], d[found[i]])
Centroid == /\ ~done /\ todo = {}
            /\ Put(found[j])
            /\ j' = j + 1
            /\ IF Inside(j + 1)
               THEN todo' = {x \in Leafs : found[j + 1] \in member[x]} /\ UNCHANGED done
               ELSE done' = TRUE /\ UNCHANGED todo
            /\ UNCHANGED <<kind, eps, k, d, member, found>>
Next == ScanLeaf \/ Centroid
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* The clusters that the parameters select, without regard to order.
Selected == {c \in Range(found) : Within(kind, eps, d[found[1]], d[c])}
Pool == Selected \union {x \in Leafs : member[x] \cap Selected # {}}
Row == [i \in 1..k |-> IF i <= Len(buf) THEN buf[i].id ELSE 0 - 1]

ClosestAlways == found[1] \in Selected
RightRow == done => F!GoodRow(kind, Pool, d, k, Row)
Clean == Sorted(kind, buf) /\ Distinct(buf) /\ Len(buf) <= k
Ends == <>done
=============================================================================
