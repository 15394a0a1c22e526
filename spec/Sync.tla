-------------------------------- MODULE Sync --------------------------------
(***************************************************************************)
(* Happens-before, computed from recorded synchronisation operations and   *)
(* their memory orders (the C++ model without fences: release sequences    *)
(* are continued by read-modify-write operations only).                    *)
(*                                                                         *)
(* A state is [c, rel, sh]: c[t] the vector clock of thread t; rel[v] the  *)
(* clock that an acquiring read of variable v obtains; sh[v] the same for  *)
(* the readers of a reader-writer lock.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zero(nt) == [t \in 0..(nt - 1) |-> 0]
SyncInit(nt, nv) ==
    [c |-> [t \in 0..(nt - 1) |-> [Zero(nt) EXCEPT ![t] = 1]],
     rel |-> [v \in 0..(nv - 1) |-> Zero(nt)],
     sh |-> [v \in 0..(nv - 1) |-> Zero(nt)]]
Join(a, b) == [t \in DOMAIN a |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]
Acquires(o) == o \in {"acq", "ar", "sc"}
Releases(o) == o \in {"rel", "ar", "sc"}
Tick(s, t) == [s EXCEPT !.c[t][t] = @ + 1]
Get(s, t, clock) == [s EXCEPT !.c[t] = Join(@, clock)]

SyncOp(s, e) ==
    LET t == e.t
        v == e.v
    IN CASE e.k = "load" -> IF Acquires(e.o) THEN Get(s, t, s.rel[v]) ELSE s
         [] e.k = "store" ->
              IF Releases(e.o) THEN Tick([s EXCEPT !.rel[v] = s.c[t]], t)
              ELSE [s EXCEPT !.rel[v] = Zero(Cardinality(DOMAIN s.c))]
         [] e.k = "rmw" ->
              LET s1 == IF Acquires(e.o) THEN Get(s, t, s.rel[v]) ELSE s
              IN IF Releases(e.o) THEN Tick([s1 EXCEPT !.rel[v] = Join(@, s1.c[t])], t) ELSE s1
         [] e.k = "lock" -> Get(s, t, Join(s.rel[v], s.sh[v]))
         [] e.k = "unlock" -> Tick([s EXCEPT !.rel[v] = Join(@, s.c[t])], t)
         [] e.k = "rlock" -> Get(s, t, s.rel[v])
         [] e.k = "runlock" -> Tick([s EXCEPT !.sh[v] = Join(@, s.c[t])], t)
         [] e.k = "create" -> Tick(Get(s, v, s.c[t]), t)
         [] e.k = "join" -> Get(s, t, s.c[v])
         [] e.k \in {"begin", "exit"} -> s
\* A moment of thread t, and whether it happened before what thread u does now.
Moment(s, t) == [t |-> t, n |-> s.c[t][t]]
Before(s, m, u) == m.n <= s.c[u][m.t]
=============================================================================
