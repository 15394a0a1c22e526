----------------------------- MODULE Clustering -----------------------------
(***************************************************************************)
(* Making a clustering: batches of vectors, split over workers that add    *)
(* each vector to its clusters under the cluster's lock (adding is not     *)
(* atomic), then the reduction of cluster sizes, one cluster after another *)
(* in an order that is not known.                                          *)
(***************************************************************************)
EXTENDS ClusterRules
CONSTANTS N, Cents, Workers, Locked
VARIABLES homes, limit, batch, phase, start, todo, w, lock, cl, left, count
vars == <<homes, limit, batch, phase, start, todo, w, lock, cl, left, count>>

Vecs == 0..(N - 1)
\* The distance to a cluster: any fixed order will do.
D(x, c) == x
Free == [pc |-> "next", x |-> -1, homes |-> {}, c |-> 0, seen |-> <<>>]

Init == /\ homes \in [Vecs -> SUBSET Cents \ {{}}]
        /\ limit \in 1..N /\ batch \in 1..N
        /\ phase = "assign" /\ start = 0
        /\ todo = [t \in Workers |-> {}]
        /\ w = [t \in Workers |-> Free]
        /\ lock = [c \in Cents |-> 0]
        /\ cl = [c \in Cents |-> <<>>]
        /\ left = Cents /\ count = [x \in Vecs |-> 0]

Idle == \A t \in Workers : todo[t] = {} /\ w[t] = Free
\* A batch, split into consecutive ranges.
Fill ==
    /\ phase = "assign" /\ Idle /\ start < N
    /\ LET stop == Min(N, start + batch)
           size == stop - start
           nw == Cardinality(Workers)
           low(t) == start + ((t - 1) * size) \div nw
           high(t) == start + (t * size) \div nw
       IN /\ todo' = [t \in Workers |-> low(t)..(high(t) - 1)]
          /\ start' = stop
    /\ UNCHANGED <<homes, limit, batch, phase, w, lock, cl, left, count>>
Take1(t) ==
    /\ w[t].pc = "next" /\ todo[t] # {}
    /\ LET x == CHOOSE x \in todo[t] : \A y \in todo[t] : x <= y
       IN w' = [w EXCEPT ![t] = [Free EXCEPT !.pc = "lock", !.x = x, !.homes = homes[x]]]
          /\ todo' = [todo EXCEPT ![t] = @ \ {x}]
    /\ UNCHANGED <<homes, limit, batch, phase, start, lock, cl, left, count>>
Lock(t) ==
    /\ w[t].pc = "lock"
    /\ IF w[t].homes = {} THEN w' = [w EXCEPT ![t] = Free] /\ UNCHANGED lock
       ELSE \E c \in w[t].homes :
              /\ Locked => lock[c] = 0
              /\ lock' = [lock EXCEPT ![c] = t]
              /\ w' = [w EXCEPT ![t].pc = "read", ![t].c = c, ![t].homes = @ \ {c}]
    /\ UNCHANGED <<homes, limit, batch, phase, start, todo, cl, left, count>>
Read(t) == /\ w[t].pc = "read"
           /\ w' = [w EXCEPT ![t].pc = "write", ![t].seen = cl[w[t].c]]
           /\ UNCHANGED <<homes, limit, batch, phase, start, todo, lock, cl, left, count>>
Write(t) == /\ w[t].pc = "write"
            /\ cl' = [cl EXCEPT ![w[t].c] = Append(w[t].seen, <<w[t].x, D(w[t].x, w[t].c)>>)]
            /\ lock' = [lock EXCEPT ![w[t].c] = 0]
            /\ w' = [w EXCEPT ![t].pc = "lock"]
            /\ UNCHANGED <<homes, limit, batch, phase, start, todo, left, count>>
Assigned ==
    /\ phase = "assign" /\ Idle /\ start = N
    /\ phase' = "reduce"
    \* Sorted by distance.
    /\ cl' = [c \in Cents |-> SetToSeqBy(Range(cl[c]), LAMBDA a, b : a[2] < b[2])]
    /\ count' = [x \in Vecs |-> CopiesOf(cl, x)]
    /\ UNCHANGED <<homes, limit, batch, start, todo, w, lock, left>>
Reduce ==
    /\ phase = "reduce"
    /\ IF left = {} THEN phase' = "done" /\ UNCHANGED <<cl, left, count>>
       ELSE \E c \in left :
            LET r == ReduceOne(cl[c], limit, count) IN
            /\ left' = left \ {c} /\ count' = r.count
            /\ IF r.excess > 0 THEN phase' = "failed" /\ UNCHANGED cl
               ELSE cl' = [cl EXCEPT ![c] = r.left] /\ UNCHANGED phase
    /\ UNCHANGED <<homes, limit, batch, start, todo, w, lock>>
Next == Fill \/ Assigned \/ Reduce \/ \E t \in Workers : Take1(t) \/ Lock(t) \/ Read(t) \/ Write(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == [c \in Cents |-> LET s == SetToSeqBy({x \in Vecs : c \in homes[x]}, LAMBDA a, b : a < b)
                          IN [i \in 1..Len(s) |-> <<s[i], D(s[i], c)>>]]
AllKept == phase = "assign" \/ AllLeaves(cl) = Vecs
AssignedRight == phase = "reduce" /\ left = Cents => cl = Whole
Once == OnceEach(cl)
Reduced == phase = "done" => GoodReduction(Whole, cl, limit)
FailsWithReason == phase = "failed" => MayFail(Whole, limit)
Ends == <>(phase \in {"done", "failed"})
=============================================================================
