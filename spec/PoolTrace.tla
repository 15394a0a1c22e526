------------------------------ MODULE PoolTrace ------------------------------
(***************************************************************************)
(* Recorded executions of a thread pool under the controlled scheduler.    *)
(* The rules are those of ThreadPool.tla: a job runs once for each worker  *)
(* number, the call returns after all of them and reports an error exactly *)
(* when one failed, and everything the job did happened before the return. *)
(***************************************************************************)
EXTENDS Sync, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sync, jobs, sizes, hb
vars == <<l, sync, jobs, sizes, hb>>

Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE
Idle == <<>>
\* Whether the execution was recorded with its synchronisation operations.
Seen(m, t) == hb => Before(sync, m, t)

\* sizes: the pool sizes in force since the last resize began (two while one is under way).
Begin(e) ==
    /\ Why("the previous execution came to its end", jobs = Idle)
    /\ sync' = SyncInit(e.nt, e.nv)
    /\ sizes' = {e.n}
    /\ hb' = e.ops
    /\ jobs' = [j \in 1..e.jobs |-> [state |-> "new"]]
Op(e) == sync' = TLCEval(SyncOp(sync, e)) /\ UNCHANGED <<jobs, sizes, hb>>

Call(e) ==
    /\ jobs' = [jobs EXCEPT ![e.j] = [state |-> "called", at |-> Moment(sync, e.t), sizes |-> sizes,
                                      started |-> {}, ended |-> <<>>, failed |-> FALSE]]
    /\ sync' = Tick(sync, e.t)
    /\ UNCHANGED <<sizes, hb>>
Start(e) ==
    LET j == jobs[e.j] IN
    /\ Why("a job runs only while it is being submitted", j.state = "called")
    /\ Why("once per worker", e.w \notin j.started)
    /\ Why("worker number in range", \E n \in j.sizes : e.w < n)
    /\ Why("the submission is visible to the worker", Seen(j.at, e.t))
    /\ jobs' = [jobs EXCEPT ![e.j].started = @ \union {e.w}]
    /\ UNCHANGED <<sync, sizes, hb>>
End(e) ==
    /\ Why("ended after it started", e.w \in jobs[e.j].started)
    /\ jobs' = [jobs EXCEPT ![e.j].ended = Append(@, [w |-> e.w, m |-> Moment(sync, e.t)]),
                            ![e.j].failed = @ \/ e.thrown]
    /\ sync' = Tick(sync, e.t)
    /\ UNCHANGED <<sizes, hb>>
Ret(e) ==
    LET j == jobs[e.j]
        done == {j.ended[i].w : i \in 1..Len(j.ended)}
    IN /\ Why("every worker finished", \E n \in j.sizes : done = 0..(n - 1))
       /\ Why("nothing is still running", done = j.started)
       /\ Why("an error exactly when one failed", e.err = j.failed)
       /\ Why("the pool's own error", e.err => e.kind = "ThreadingException")
       /\ Why("effects visible", \A i \in 1..Len(j.ended) : Seen(j.ended[i].m, e.t))
       /\ jobs' = [jobs EXCEPT ![e.j] = [state |-> "returned"]]
       /\ UNCHANGED <<sync, sizes, hb>>
\* Jobs submitted while a resize is under way may see either size.
Widen(S) == [j \in DOMAIN jobs |-> IF jobs[j].state = "called"
                                   THEN [jobs[j] EXCEPT !.sizes = @ \union S] ELSE jobs[j]]
Resize(e) ==
    /\ sizes' = sizes \union {IF e.n = 0 THEN 1 ELSE e.n}
    /\ jobs' = Widen(sizes')
    /\ UNCHANGED <<sync, hb>>
Resized(e) ==
    LET n == IF e.n = 0 THEN 1 ELSE e.n IN
    /\ Why("the size asked for", e.size = n)
    /\ sizes' = {n}
    /\ UNCHANGED <<sync, jobs, hb>>
Done(e) ==
    /\ Why("every submission returned", \A j \in DOMAIN jobs : jobs[j].state = "returned")
    /\ Why("every worker thread ended", e.live = 0)
    /\ jobs' = Idle
    /\ UNCHANGED <<sync, sizes, hb>>

Step(e) ==
    CASE e.e = "begin" -> Begin(e)
      [] e.e = "op" -> Op(e)
      [] e.e = "call" -> Call(e)
      [] e.e = "start" -> Start(e)
      [] e.e = "end" -> End(e)
      [] e.e = "ret" -> Ret(e)
      [] e.e = "resize" -> Resize(e)
      [] e.e = "resized" -> Resized(e)
      [] e.e = "done" -> Done(e)
      [] e.e = "stuck" -> Why("an execution got stuck", FALSE) /\ UNCHANGED <<sync, jobs, sizes, hb>>

Init == l = 0 /\ sync = SyncInit(1, 1) /\ jobs = Idle /\ sizes = {} /\ hb = FALSE
Next == /\ l < Len(Trace)
        /\ Step(Trace[l + 1])
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
