------------------------------ MODULE Partition ------------------------------
(***************************************************************************)
(* The two ways of partitioning: the balanced static split, computed by    *)
(* each worker on its own, and the shared counter of the dynamic one, with *)
(* every interleaving of the workers.                                      *)
(***************************************************************************)
EXTENDS PartitionRules

CONSTANTS MaxN, MaxThreads, MaxGrain

Min(a, b) == IF a < b THEN a ELSE b
\* balance(): b1 for the first team, one less for the others.
Balance(n, nt, tid) ==
    IF nt <= 1 \/ n = 0 THEN [lo |-> 0, hi |-> n, size |-> n]
    ELSE LET b1 == (n + nt - 1) \div nt
             b2 == b1 - 1
             team1 == n - b2 * nt
             lo == IF tid < team1 THEN b1 * tid ELSE b1 * team1 + b2 * (tid - team1)
             hi == Min(lo + (IF tid < team1 THEN b1 ELSE b2), n)
         IN [lo |-> lo, hi |-> hi, size |-> hi - lo]
Shares(n, nt) == [k \in 1..nt |-> Balance(n, nt, k - 1)]
StaticRight == \A n \in 0..(3 * MaxN), nt \in 1..(2 * MaxThreads) :
    n > 0 \/ nt = 1 =>
    /\ Contiguous(Shares(n, nt), 0, n)
    /\ \A i, k \in 1..nt : Shares(n, nt)[i].size - Shares(n, nt)[k].size \in {-1, 0, 1}
    /\ Exactly(Shares(n, nt), n)
ASSUME StaticRight

VARIABLES n, nt, grain, count, pc, chunks
vars == <<n, nt, grain, count, pc, chunks>>
Init == /\ n \in 0..MaxN /\ nt \in 1..MaxThreads /\ grain \in 1..MaxGrain
        /\ count = 0 /\ chunks = <<>>
        /\ pc = [t \in 1..nt |-> "next"]
Take(t) == /\ pc[t] = "next"
           /\ count' = count + 1
           /\ IF grain * count >= n
              THEN pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED chunks
              ELSE /\ chunks' = Append(chunks, [lo |-> grain * count, hi |-> Min(grain * (count + 1), n)])
                   /\ pc' = [pc EXCEPT ![t] = "work"]
           /\ UNCHANGED <<n, nt, grain>>
Finish(t) == pc[t] = "work" /\ pc' = [pc EXCEPT ![t] = "next"] /\ UNCHANGED <<n, nt, grain, count, chunks>>
Next == \E t \in 1..nt : Take(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllDone == \A t \in 1..nt : pc[t] = "done"
DynamicRight == AllDone => Exactly(chunks, n)
NoneTwice == \A i, k \in DOMAIN chunks : i # k => chunks[i].hi <= chunks[k].lo \/ chunks[k].hi <= chunks[i].lo
Ends == <>AllDone
=============================================================================
