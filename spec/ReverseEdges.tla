----------------------------- MODULE ReverseEdges -----------------------------
(***************************************************************************)
(* Adding reverse edges concurrently (VamanaBuilder::add_reverse_edges):   *)
(* each worker walks over the neighbours of its own vertices, as they were *)
(* when it started on a vertex, and under the lock of the neighbour either *)
(* adds the edge or, when the list is full, registers it in the buffer.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Deg, Workers

V == 1..N
Range(s) == {s[i] : i \in 1..Len(s)}
Lists == {<<>>} \union {<<a>> : a \in V} \union (IF Deg >= 2 THEN {<<a, b>> : a, b \in V} ELSE {})
Proper(u, s) == u \notin Range(s) /\ Cardinality(Range(s)) = Len(s)
\* Vertices 1..Old are not in the batch; the others are shared out among the workers.
VARIABLES g0, g, buf, held, pc, v, walk, i, todo, kept
vars == <<g0, g, buf, held, pc, v, walk, i, todo, kept>>
Init ==
    /\ g0 \in {f \in [V -> Lists] : \A u \in V : Proper(u, f[u])}
    /\ g = g0 /\ buf = [u \in V |-> {}]
    /\ held = [u \in V |-> 0]
    /\ todo \in [Workers -> SUBSET V]
    /\ \A a, b \in Workers : a # b => todo[a] \intersect todo[b] = {}
    /\ UNION {todo[w] : w \in Workers} = V
    /\ pc = [w \in Workers |-> "next"]
    /\ v = [w \in Workers |-> 0] /\ walk = [w \in Workers |-> <<>>] /\ i = [w \in Workers |-> 0]
    /\ kept = {}
NextVertex(w) ==
    /\ pc[w] = "next"
    /\ IF todo[w] = {} THEN pc' = [pc EXCEPT ![w] = "done"] /\ UNCHANGED <<v, walk, i, todo>>
       ELSE LET u == CHOOSE x \in todo[w] : \A y \in todo[w] : x <= y IN
            /\ v' = [v EXCEPT ![w] = u] /\ todo' = [todo EXCEPT ![w] = @ \ {u}]
            /\ walk' = [walk EXCEPT ![w] = g[u]] /\ i' = [i EXCEPT ![w] = 1]
            /\ pc' = [pc EXCEPT ![w] = "walk"]
    /\ UNCHANGED <<g0, g, buf, held, kept>>
Lock(w) ==
    /\ pc[w] = "walk"
    /\ IF i[w] > Len(walk[w]) THEN pc' = [pc EXCEPT ![w] = "next"] /\ UNCHANGED held
       ELSE /\ held[walk[w][i[w]]] = 0
            /\ held' = [held EXCEPT ![walk[w][i[w]]] = w]
            /\ pc' = [pc EXCEPT ![w] = "locked"]
    /\ UNCHANGED <<g0, g, buf, v, walk, i, todo, kept>>
Insert(w) ==
    /\ pc[w] = "locked"
    /\ LET u == walk[w][i[w]] IN
       /\ IF Len(g[u]) < Deg
          THEN /\ g' = [g EXCEPT ![u] = IF v[w] \in Range(@) THEN @ ELSE Append(@, v[w])]
               /\ UNCHANGED buf
          ELSE buf' = [buf EXCEPT ![u] = @ \union {v[w]}] /\ UNCHANGED g
       /\ held' = [held EXCEPT ![u] = 0]
       /\ kept' = kept \union {<<u, v[w]>>}
    /\ i' = [i EXCEPT ![w] = @ + 1]
    /\ pc' = [pc EXCEPT ![w] = "walk"]
    /\ UNCHANGED <<g0, v, walk, todo>>
Next == \E w \in Workers : NextVertex(w) \/ Lock(w) \/ Insert(w)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(NextVertex(w)) /\ SF_vars(Lock(w)) /\ WF_vars(Insert(w))
Bounded == \A u \in V : Proper(u, g[u]) /\ Len(g[u]) <= Deg
AllDone == \A w \in Workers : pc[w] = "done"
\* Every original edge has its reverse in a list or in the buffer, nothing else was added.
Delivered == AllDone => \A u \in V : \A x \in Range(g0[u]) : u \in Range(g[x]) \union buf[x]
NothingElse == \A u \in V : \A x \in (Range(g[u]) \union buf[u]) \ Range(g0[u]) : u \in Range(g0[x]) \/ u \in Range(g[x])
OriginalsStay == \A u \in V : Len(g[u]) >= Len(g0[u]) /\ \A k \in 1..Len(g0[u]) : g[u][k] = g0[u][k]
Ends == <>AllDone
=============================================================================
