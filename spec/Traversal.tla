------------------------------ MODULE Traversal ------------------------------
(***************************************************************************)
(* Best-first traversal step by step, over every small graph, distance     *)
(* assignment, liveness, entry point, window and capacity.  b2 is the      *)
(* buffer of the variant with the visited filter, which may or may not     *)
(* skip a vertex that was offered before (the filter is allowed to forget, *)
(* never to invent).                                                       *)
(***************************************************************************)
EXTENDS VamanaOps

CONSTANTS N, NDist, MaxCap, MaxDeg, WithDead

V == 0..(N - 1)
\* Lists in ascending order stand for every set of neighbours.
ListOf(S) == LET lt(x, y) == x < y IN SetToSeqBy(S, lt)
NeighbourSets(u) == {S \in SUBSET (V \ {u}) : Cardinality(S) <= MaxDeg}

VARIABLES g, dq, ok, ep, w, cap, buf, b2, log, offered, run
vars == <<g, dq, ok, ep, w, cap, buf, b2, log, offered, run>>
const == <<g, dq, ok, ep, w, cap>>

Init ==
    /\ g \in {f \in [V -> SUBSET V] : \A u \in V : f[u] \in NeighbourSets(u)}
    /\ dq \in [V -> 1..NDist]
    /\ ok \in [V -> IF WithDead THEN BOOLEAN ELSE {TRUE}]
    /\ ep \in V
    /\ cap \in 1..MaxCap
    /\ w \in 1..cap
    /\ buf = <<Cand(ep, dq[ep], ok[ep])>>
    /\ b2 = buf
    /\ log = <<>>
    /\ offered = {ep}
    /\ run = TRUE

Expand ==
    /\ run
    /\ ~IsDone(buf, w)
    /\ LET u == buf[NextPos(buf, w)].id
           ns == ListOf(g[u])
       IN /\ buf' = InsertAll("L2", Visit(buf, w), ns, 1, dq, ok, cap)
          /\ \E skip \in SUBSET (g[u] \cap offered) :
               b2' = InsertAll("L2", Visit(b2, w),
                               SelectSeq(ns, LAMBDA v : v \notin skip), 1, dq, ok, cap)
          /\ log' = Append(log, u)
          /\ offered' = offered \union g[u]
    /\ UNCHANGED <<const, run>>
Finish == run /\ IsDone(buf, w) /\ run' = FALSE /\ UNCHANGED <<const, buf, b2, log, offered>>
Next == Expand \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* The filter changes nothing.
FilterHarmless == b2 = buf
\* Every vertex is expanded at most once, only reachable vertices are met.
ExpandedOnce == NoDup(log)
OnlyReachable == offered \subseteq ReachFrom(g, {ep})
BufferFine == Sorted("L2", buf) /\ Distinct(buf) /\ \A i \in 1..Len(buf) : buf[i].id \in offered
Kept == {buf[i].id : i \in {j \in 1..Len(buf) : buf[j].ok}}
\* What was offered and is not there is no better than what is there, when it is full.
BestOfferedKept ==
    LET live == {v \in offered : ok[v]}
    IN /\ Cardinality(Kept) = Min(cap, Cardinality(live))
       /\ \A v \in live \ Kept : \A x \in Kept : dq[x] <= dq[v]
\* A window over everything gives everything reachable.
Exact == ~run /\ w >= N => Kept = {v \in ReachFrom(g, {ep}) : ok[v]}
\* The recursive definition used against the code is this traversal.
Agrees ==
    ~run => LET r == GreedySearch("L2", [u \in V |-> ListOf(g[u])], dq, ok, <<ep>>, w, cap)
            IN r.buf = buf /\ r.log = log
Ends == <>(~run)
=============================================================================
