------------------------------- MODULE Flat -------------------------------
(***************************************************************************)
(* Exhaustive search (index/flat/flat.h, inserters.h).                     *)
(*                                                                         *)
(* What an answer must be, and the blocked procedure that computes it: the *)
(* data is cut into batches taken one after the other; for each, workers   *)
(* claim batches of queries and insert every admitted element of the data  *)
(* batch into the bounded collection of every query they hold.             *)
(***************************************************************************)
EXTENDS Common

\* An answer row of k slots: ids (-1 where there is none) and distances d[x].
GoodRow(kind, admitted, d, k, ids) ==
    LET m == Min(k, Cardinality(admitted))
        got == {ids[j] : j \in 1..m}
    IN /\ Len(ids) = k
       /\ got \subseteq admitted /\ Cardinality(got) = m
       /\ \A j \in (m + 1)..k : ids[j] = -1
       /\ \A j \in 2..m : NoWorse(kind, d[ids[j - 1]], d[ids[j]])
       /\ m > 0 => \A x \in admitted \ got : NoWorse(kind, d[ids[m]], d[x])

\* The batch sizes in force.
DataBatch(db, n, default) == IF db = 0 THEN default ELSE Min(db, n)
QueryBatch(qb, nq, threads) ==
    IF qb = 0 THEN (nq + threads - 1) \div threads ELSE Min(qb, nq)

-----------------------------------------------------------------------------
(* The procedure. *)
CONSTANTS MaxN, MaxQ, MaxK, MaxD, Threads
VARIABLES n, nq, k, db, qb, d, admitted, start, next, work, heap, done
vars == <<n, nq, k, db, qb, d, admitted, start, next, work, heap, done>>
Idle == [lo |-> 0, hi |-> 0, at |-> 0]
None == [d |-> MaxD + 1, i |-> -1]

Init == /\ n \in 0..MaxN /\ nq \in 1..MaxQ /\ k \in 1..MaxK
        /\ db \in 0..(MaxN + 1) /\ qb \in 0..(MaxQ + 1)
        /\ d \in [0..(nq - 1) -> [0..(n - 1) -> 0..MaxD]]
        /\ admitted \in SUBSET (0..(n - 1))
        /\ start = 0 /\ next = 0 /\ done = FALSE
        /\ work = [t \in Threads |-> Idle]
        /\ heap = [q \in 0..(nq - 1) |-> [j \in 1..k |-> None]]

Stop == Min(n, start + DataBatch(db, n, MaxN))
QB == QueryBatch(qb, nq, Cardinality(Threads))
\* Dynamic partition: batch b covers the queries from b * QB.
Claim(t) ==
    /\ ~done /\ start < n /\ work[t] = Idle /\ next < nq
    /\ work' = [work EXCEPT ![t] = [lo |-> next, hi |-> Min(nq, next + QB), at |-> start]]
    /\ next' = next + QB
    /\ UNCHANGED <<n, nq, k, db, qb, d, admitted, start, heap, done>>

\* All the collections that inserting x into h may leave: x takes the place of a worst element,
\* or is dropped when it is no better than that.
Worst(h) == {j \in 1..k : \A m \in 1..k : h[m].d <= h[j].d}
Inserted(h, x) ==
    LET w == h[CHOOSE j \in Worst(h) : TRUE].d
    IN (IF w <= x.d THEN {h} ELSE {})
       \union (IF x.d <= w THEN {[h EXCEPT ![j] = x] : j \in Worst(h)} ELSE {})
Work(t) ==
    /\ work[t] # Idle
    /\ LET w == work[t] IN
       /\ IF w.at \in admitted
          THEN \E new \in [w.lo..(w.hi - 1) ->
                             UNION {Inserted(heap[q], [d |-> d[q][w.at], i |-> w.at]) :
                                       q \in w.lo..(w.hi - 1)}] :
                  /\ \A q \in w.lo..(w.hi - 1) :
                        new[q] \in Inserted(heap[q], [d |-> d[q][w.at], i |-> w.at])
                  /\ heap' = [q \in DOMAIN heap |->
                                IF q \in DOMAIN new THEN new[q] ELSE heap[q]]
          ELSE UNCHANGED heap
       /\ work' = [work EXCEPT ![t] = IF w.at + 1 = Stop THEN Idle ELSE [w EXCEPT !.at = @ + 1]]
    /\ UNCHANGED <<n, nq, k, db, qb, d, admitted, start, next, done>>
Advance ==
    /\ ~done /\ \A t \in Threads : work[t] = Idle
    /\ IF start < n THEN next >= nq /\ start' = Stop /\ next' = 0 /\ UNCHANGED done
       ELSE done' = TRUE /\ UNCHANGED <<start, next>>
    /\ UNCHANGED <<n, nq, k, db, qb, d, admitted, work, heap>>
Next == Advance \/ \E t \in Threads : Claim(t) \/ Work(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* No two workers hold the same query: the collections need no locks.
Apart == \A s, t \in Threads :
    s # t /\ work[s] # Idle /\ work[t] # Idle => work[s].hi <= work[t].lo \/ work[t].hi <= work[s].lo
\* After sorting, every row is the answer.
Sorted(h) == SetToSeqBy({[d |-> h[j].d, i |-> h[j].i, j |-> j] : j \in 1..k},
                        LAMBDA a, b : a.d < b.d \/ (a.d = b.d /\ a.j < b.j))
Exact == done => \A q \in 0..(nq - 1) :
    LET s == Sorted(heap[q]) IN
    GoodRow("L2", admitted, d[q], k, [j \in 1..k |-> s[j].i])
Ends == <>done
=============================================================================
