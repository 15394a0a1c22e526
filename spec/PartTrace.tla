------------------------------ MODULE PartTrace ------------------------------
(***************************************************************************)
(* Recorded partitions: static ones as one event with what each worker     *)
(* was called with, dynamic ones as executions of a real pool under the    *)
(* controlled scheduler.                                                   *)
(***************************************************************************)
EXTENDS PartitionRules, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, run, chunks
vars == <<l, run, chunks>>
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE
Pick(S) == CHOOSE x \in S : TRUE

\* Large positions come as <<billions, rest>>; a size likewise.
NearlyEqual(a, b) == \/ (a[1] = b[1] /\ a[2] - b[2] \in {-1, 0, 1})
                     \/ (a[1] = b[1] + 1 /\ a[2] = 0 /\ b[2] = 999999999)
                     \/ (b[1] = a[1] + 1 /\ b[2] = 0 /\ a[2] = 999999999)
Balance(e) ==
    LET s == [k \in 1..e.nt |-> [lo |-> e.shares[k][1], hi |-> e.shares[k][2], size |-> e.shares[k][3]]] IN
    /\ Why("contiguous, in order, complete", Contiguous(s, <<0, 0>>, e.n))
    /\ Why("balanced", \A i, k \in 1..e.nt : NearlyEqual(s[i].size, s[k].size))
    /\ UNCHANGED <<run, chunks>>
\* calls: sequence of <<worker, values>> in any order.
Static(e) ==
    LET calls == e.calls
        Of(w) == {k \in DOMAIN calls : calls[k][1] = w}
        Share(w) == IF Of(w) = {} THEN <<>> ELSE calls[Pick(Of(w))][2]
        RECURSIVE Cat(_)
        Cat(w) == IF w = e.nt THEN <<>> ELSE Share(w) \o Cat(w + 1)
    IN /\ Why("worker numbers", \A k \in DOMAIN calls : calls[k][1] \in 0..(e.nt - 1))
       /\ Why("called at most once", \A w \in 0..(e.nt - 1) : Cardinality(Of(w)) <= 1)
       /\ Why("each element once, in order", Cat(0) = e.space)
       /\ Why("balanced", \A v, w \in 0..(e.nt - 1) : Len(Share(v)) - Len(Share(w)) \in {-1, 0, 1})
       /\ UNCHANGED <<run, chunks>>

Begin(e) == /\ Why("the previous execution came to its end", run = <<>>)
            /\ run' = [nt |-> e.workers, space |-> e.space]
            /\ chunks' = <<>>
Chunk(e) ==
    LET lo == IF e.vals = <<>> THEN 0
              ELSE IF \E k \in DOMAIN run.space : run.space[k] = e.vals[1]
              THEN (CHOOSE k \in DOMAIN run.space : run.space[k] = e.vals[1]) - 1 ELSE -1
        c == [lo |-> lo, hi |-> lo + Len(e.vals)]
    IN /\ Why("worker number", e.w \in 0..(run.nt - 1))
       /\ Why("a piece of the space", lo >= 0 /\ c.hi <= Len(run.space)
                /\ \A k \in 1..Len(e.vals) : e.vals[k] = run.space[lo + k])
       /\ Why("given out once", \A k \in DOMAIN chunks :
                chunks[k].hi <= c.lo \/ c.hi <= chunks[k].lo \/ c.lo = c.hi)
       /\ chunks' = IF c.lo = c.hi THEN chunks ELSE Append(chunks, c)
       /\ UNCHANGED run
Done(e) == /\ Why("everything given out", Exactly(chunks, Len(run.space)))
           /\ Why("every worker thread ended", e.live = 0)
           /\ run' = <<>> /\ chunks' = <<>>

Step(e) ==
    CASE e.e = "balance" -> Balance(e)
      [] e.e = "static" -> Static(e)
      [] e.e = "begin" -> Begin(e)
      [] e.e = "chunk" -> Chunk(e)
      [] e.e = "done" -> Done(e)
      [] e.e = "stuck" -> Why("an execution got stuck", FALSE) /\ UNCHANGED <<run, chunks>>
Init == l = 0 /\ run = <<>> /\ chunks = <<>>
Next == /\ l < Len(Trace)
        /\ Step(Trace[l + 1])
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
