----------------------------- MODULE ThreadTrace -----------------------------
(***************************************************************************)
(* Recorded executions of one worker thread and its controller under the   *)
(* controlled scheduler.  The rules are the properties of ThreadControl:   *)
(* accepted jobs run exactly once and in order, waiting ends only after    *)
(* the job, a failure sticks and is reported, shutting down always ends    *)
(* the worker.                                                             *)
(***************************************************************************)
EXTENDS Sync, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sync, w, hb
vars == <<l, sync, w, hb>>

Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE
Seen(m, t) == hb => Before(sync, m, t)

\* asking: the job being assigned; accepted, started, ended: counts of jobs (they run in the
\* order of their acceptance); failed: a job threw; taken: its exception was handed out;
\* down: shut down.
Fresh == [asking |-> 0, asked |-> [t |-> 0, n |-> 0], accepted |-> <<>>, started |-> <<>>,
          ended |-> <<>>, last |-> [t |-> 0, n |-> 0], failed |-> FALSE, taken |-> FALSE, down |-> FALSE]

Begin(e) ==
    /\ Why("the previous execution came to its end", w = Fresh)
    /\ sync' = SyncInit(e.nt, e.nv) /\ hb' = e.ops /\ w' = Fresh
Assign(e) ==
    /\ w' = [w EXCEPT !.asking = e.j, !.asked = Moment(sync, e.t)]
    /\ sync' = Tick(sync, e.t) /\ UNCHANGED hb
Start(e) ==
    /\ Why("the job being assigned, or the last one accepted",
           \/ e.j = w.asking
           \/ Len(w.accepted) > 0 /\ e.j = w.accepted[Len(w.accepted)])
    /\ Why("once, after those before it", Len(w.started) = Len(w.ended) /\ \A i \in 1..Len(w.started) : w.started[i] < e.j)
    /\ Why("not on a worker that failed or ended", ~w.failed /\ ~w.down)
    /\ Why("the assignment is visible", e.j = w.asking => Seen(w.asked, e.t))
    /\ w' = [w EXCEPT !.started = Append(@, e.j)]
    /\ UNCHANGED <<sync, hb>>
End(e) ==
    /\ w' = [w EXCEPT !.ended = Append(@, e.j), !.failed = @ \/ e.thrown, !.last = Moment(sync, e.t)]
    /\ sync' = Tick(sync, e.t) /\ UNCHANGED hb
AllRan == w.ended = w.accepted /\ w.started = w.ended
Assigned(e) ==
    /\ IF e.err
       THEN /\ Why("refused only by a worker that failed or ended", w.failed \/ w.down)
            /\ Why("a refused job does not run", e.j \notin {w.started[i] : i \in 1..Len(w.started)})
            /\ w' = [w EXCEPT !.asking = 0, !.taken = @ \/ (w.failed /\ e.took)]
       ELSE /\ Why("a worker that ended takes no job", ~w.down)
            /\ Why("the previous jobs are done", SubSeq(w.ended, 1, Len(w.accepted)) = w.accepted)
            /\ Why("a worker that failed before takes no job",
                   w.failed => w.ended # <<>> /\ w.ended[Len(w.ended)] = e.j)
            /\ w' = [w EXCEPT !.asking = 0, !.accepted = Append(@, e.j)]
    /\ UNCHANGED <<sync, hb>>
Waited(e) ==
    /\ Why("released only after the job", AllRan)
    /\ Why("a failure is reported until the restart", e.ok = ~w.failed)
    /\ Why("effects visible", w.ended # <<>> => Seen(w.last, e.t))
    /\ UNCHANGED <<sync, w, hb>>
Except(e) ==
    /\ Why("there is a failure to report", w.failed)
    /\ Why("the exception thrown by the job", e.same)
    /\ w' = [w EXCEPT !.taken = TRUE]
    /\ UNCHANGED <<sync, hb>>
Shut(e) ==
    /\ Why("shutting down waits for the job", AllRan)
    /\ Why("the worker ended", e.live = 0)
    /\ Why("the stored exception comes out once", e.err = (w.failed /\ ~w.taken))
    /\ Why("effects visible", w.ended # <<>> => Seen(w.last, e.t))
    /\ w' = [w EXCEPT !.down = TRUE, !.taken = @ \/ w.failed]
    /\ UNCHANGED <<sync, hb>>
Done(e) == /\ Why("every worker thread ended", e.live = 0)
           /\ Why("every accepted job ran", AllRan)
           /\ w' = Fresh /\ UNCHANGED <<sync, hb>>

Step(e) ==
    CASE e.e = "begin" -> Begin(e)
      [] e.e = "op" -> sync' = TLCEval(SyncOp(sync, e)) /\ UNCHANGED <<w, hb>>
      [] e.e = "assign" -> Assign(e)
      [] e.e = "assigned" -> Assigned(e)
      [] e.e = "start" -> Start(e)
      [] e.e = "end" -> End(e)
      [] e.e = "waited" -> Waited(e)
      [] e.e = "except" -> Except(e)
      [] e.e = "shut" -> Shut(e)
      [] e.e = "done" -> Done(e)
      [] e.e = "stuck" -> Why("an execution got stuck", FALSE) /\ UNCHANGED <<sync, w, hb>>

Init == l = 0 /\ sync = SyncInit(1, 1) /\ w = Fresh /\ hb = FALSE
Next == /\ l < Len(Trace)
        /\ Step(Trace[l + 1])
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
