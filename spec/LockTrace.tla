------------------------------ MODULE LockTrace ------------------------------
(***************************************************************************)
(* Recorded executions, under the controlled scheduler, of the spin lock   *)
(* (rules of Locks.tla), of read-write protected values (atomic registers: *)
(* every recorded call must fit some order of instantaneous reads and      *)
(* writes) and of the reverse-edge buffer (delivers what was registered).  *)
(***************************************************************************)
EXTENDS Sync, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sync, hb, kind,
    holder, left,     \* spin locks: who is inside (-1: nobody), when it was last left
    cells,            \* possible states of the registers: [val |-> cell -> value, done |-> thread -> answer]
    pending,          \* thread -> call under way
    edges
vars == <<l, sync, hb, kind, holder, left, cells, pending, edges>>
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE
None == [op |-> "none"]
spin == <<holder, left>>
regs == <<cells, pending>>

Begin(e) ==
    /\ Why("the previous execution came to its end", kind = "none")
    /\ sync' = SyncInit(e.nt, e.nv) /\ hb' = e.ops /\ kind' = e.kind
    /\ holder' = <<-1, -1>>
    /\ left' = <<[t |-> 0, n |-> 0], [t |-> 0, n |-> 0]>>
    /\ cells' = {[val |-> <<1, 2>>, done |-> [t \in {} |-> 0]]}
    /\ pending' = [t \in 0..(e.nt - 1) |-> None]
    /\ edges' = {}
Op(e) == sync' = TLCEval(SyncOp(sync, e)) /\ UNCHANGED <<hb, kind, spin, regs, edges>>

Enter(e) ==
    LET k == e.l + 1 IN
    /\ Why("at most one inside", holder[k] = -1)
    /\ Why("what the last one did is visible", hb => Before(sync, left[k], e.t))
    /\ holder' = [holder EXCEPT ![k] = e.t]
    /\ UNCHANGED <<sync, hb, kind, left, regs, edges>>
Leave(e) ==
    LET k == e.l + 1 IN
    /\ Why("left by who entered", holder[k] = e.t)
    /\ Why("locked while inside", e.seen)
    /\ holder' = [holder EXCEPT ![k] = -1]
    /\ left' = [left EXCEPT ![k] = Moment(sync, e.t)]
    /\ sync' = Tick(sync, e.t)
    /\ UNCHANGED <<hb, kind, regs, edges>>
Free(e) == Why("free in the end", ~e.seen) /\ UNCHANGED <<sync, hb, kind, spin, regs, edges>>

\* Let calls under way take effect, in any order, any number of them. A call is
\* [op, x, v]; an assignment first reads the other cell, then writes its own.
Effects(c, p) ==
    UNION {IF t \in DOMAIN c.done THEN {}
           ELSE CASE p[t].op = "get" -> {[c EXCEPT !.done = (t :> c.val[p[t].x]) @@ c.done]}
                  [] p[t].op = "set" -> {[val |-> [c.val EXCEPT ![p[t].x] = p[t].v], done |-> (t :> p[t].v) @@ c.done]}
                  [] p[t].op = "assign" ->
                       LET r == t + 100 IN
                       IF r \notin DOMAIN c.done THEN {[c EXCEPT !.done = (r :> c.val[3 - p[t].x]) @@ c.done]}
                       ELSE {[val |-> [c.val EXCEPT ![p[t].x] = c.done[r]], done |-> (t :> 0) @@ c.done]}
                  [] OTHER -> {}
           : t \in DOMAIN p}
RECURSIVE Closure(_, _)
Closure(C, p) == LET D == C \union UNION {Effects(c, p) : c \in C} IN IF D = C THEN C ELSE Closure(D, p)

CallC(e) ==
    /\ pending' = [pending EXCEPT ![e.t] = [op |-> e.op, x |-> e.x + 1, v |-> e.v]]
    /\ cells' = TLCEval(Closure(cells, pending'))
    /\ UNCHANGED <<sync, hb, kind, spin, edges>>
RetC(e) ==
    LET fits == {c \in cells : e.t \in DOMAIN c.done /\ c.done[e.t] = e.v[1]} IN
    /\ Why("read whole", e.op = "get" => e.v[1] = e.v[2] /\ e.v[2] = e.v[3])
    /\ Why("some order of atomic reads and writes explains it", fits # {})
    /\ cells' = {[val |-> c.val, done |-> [t \in DOMAIN c.done \ {e.t, e.t + 100} |-> c.done[t]]] : c \in fits}
    /\ pending' = [pending EXCEPT ![e.t] = None]
    /\ UNCHANGED <<sync, hb, kind, spin, edges>>

Edge(e) == edges' = edges \union {<<e.u, e.v>>} /\ UNCHANGED <<sync, hb, kind, spin, regs>>
Buckets(e) ==
    LET b == e.all IN
    /\ Why("each vertex once", \A i, k \in DOMAIN b : i # k => b[i][1] # b[k][1])
    /\ Why("each edge once", \A i \in DOMAIN b : \A x, y \in DOMAIN b[i][2] : x # y => b[i][2][x] # b[i][2][y])
    /\ Why("exactly the registered edges",
           edges = {<<b[p[1]][1], b[p[1]][2][p[2]]>> : p \in UNION {{i} \X DOMAIN b[i][2] : i \in DOMAIN b}})
    /\ UNCHANGED <<sync, hb, kind, spin, regs, edges>>
Done(e) == /\ Why("every thread ended", e.live = 0)
           /\ Why("nobody inside", holder = <<-1, -1>>)
           /\ kind' = "none"
           /\ UNCHANGED <<sync, hb, spin, regs, edges>>

Step(e) ==
    CASE e.e = "begin" -> Begin(e)
      [] e.e = "op" -> Op(e)
      [] e.e = "enter" -> Enter(e)
      [] e.e = "leave" -> Leave(e)
      [] e.e = "free" -> Free(e)
      [] e.e = "call" -> CallC(e)
      [] e.e = "ret" -> RetC(e)
      [] e.e = "reset" -> edges' = {} /\ UNCHANGED <<sync, hb, kind, spin, regs>>
      [] e.e = "edge" -> Edge(e)
      [] e.e = "buckets" -> Buckets(e)
      [] e.e = "done" -> Done(e)
      [] e.e = "stuck" -> Why("an execution got stuck", FALSE) /\ UNCHANGED <<sync, hb, kind, spin, regs, edges>>

Init == /\ l = 0 /\ sync = SyncInit(1, 1) /\ hb = FALSE /\ kind = "none"
        /\ holder = <<-1, -1>> /\ left = <<>> /\ cells = {} /\ pending = <<>> /\ edges = {}
Next == /\ l < Len(Trace)
        /\ Step(Trace[l + 1])
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
