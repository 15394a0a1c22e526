---------------------------- MODULE ThreadControl ----------------------------
(***************************************************************************)
(* The handshake between one worker thread and the thread controlling it   *)
(* (ThreadControlBlock in lib/threads/thread.h), one action per atomic     *)
(* step: the state word, the job slot, the mutex and condition variable    *)
(* the worker sleeps on (with spurious wake-ups), and the promise.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxJobs, Spurious

Jobs == 1..MaxJobs
NoJob == 0

VARIABLES
    st,       \* the state word
    fn,       \* the job slot
    mtx,      \* owner of the mutex: "none", "w", "c"
    waiting,  \* the worker is registered on the condition variable
    woken,
    wpc, wreq,          \* worker: control point, request read
    cpc, cur, cjob,     \* controller: control point, state read, job being assigned
    accepted, rejected, \* jobs whose assignment returned, or raised an error
    executed,           \* jobs whose body was entered, in order
    finished,           \* jobs whose body returned or threw
    throwing,           \* jobs that will throw
    promise,
    spur                \* spurious wake-ups left
vars == <<st, fn, mtx, waiting, woken, wpc, wreq, cpc, cur, cjob, accepted, rejected,
          executed, finished, throwing, promise, spur>>
worker == <<wpc, wreq>>
control == <<cpc, cur, cjob, accepted, rejected>>
jobs == <<executed, finished, throwing, promise>>
cv == <<waiting, woken, spur>>

Init ==
    /\ st = "Boot" /\ fn = NoJob /\ mtx = "none" /\ waiting = FALSE /\ woken = FALSE
    /\ wpc = "boot" /\ wreq = "none"
    /\ cpc = "start" /\ cur = "none" /\ cjob = NoJob
    /\ accepted = <<>> /\ rejected = {} /\ executed = <<>> /\ finished = {}
    /\ throwing \in SUBSET Jobs
    /\ promise = "none"
    /\ spur = Spurious

(************************************ worker *******************************)
WBoot == wpc = "boot" /\ st' = "Spinning" /\ wpc' = "spin"
         /\ UNCHANGED <<fn, mtx, wreq, control, jobs, cv>>
WSpin == /\ wpc = "spin"
         /\ IF st = "Spinning" THEN wpc' = "lock" /\ UNCHANGED wreq   \* the spin count ran out
            ELSE wpc' = "dispatch" /\ wreq' = st
         /\ UNCHANGED <<st, fn, mtx, control, jobs, cv>>
WLock == wpc = "lock" /\ mtx = "none" /\ mtx' = "w" /\ wpc' = "cas"
         /\ UNCHANGED <<st, fn, wreq, control, jobs, cv>>
WCas == /\ wpc = "cas"
        /\ IF st = "Spinning" THEN st' = "Sleeping" /\ wpc' = "pred" /\ UNCHANGED mtx
           ELSE mtx' = "none" /\ wpc' = "reread" /\ UNCHANGED st
        /\ UNCHANGED <<fn, wreq, control, jobs, cv>>
WPred == /\ wpc = "pred"
         /\ IF st \in {"Working", "RequestShutdown"}
            THEN mtx' = "none" /\ wpc' = "reread" /\ UNCHANGED cv
            ELSE mtx' = "none" /\ wpc' = "waiting" /\ waiting' = TRUE /\ woken' = FALSE
                 /\ UNCHANGED spur
         /\ UNCHANGED <<st, fn, wreq, control, jobs>>
WWake == /\ wpc = "waiting" /\ mtx = "none"
         /\ \/ woken /\ UNCHANGED spur
            \/ ~woken /\ spur > 0 /\ spur' = spur - 1
         /\ mtx' = "w" /\ waiting' = FALSE /\ woken' = FALSE /\ wpc' = "pred"
         /\ UNCHANGED <<st, fn, wreq, control, jobs>>
WReread == wpc = "reread" /\ wreq' = st /\ wpc' = "dispatch"
           /\ UNCHANGED <<st, fn, mtx, control, jobs, cv>>
WDispatch ==
    /\ wpc = "dispatch"
    /\ \/ wreq = "RequestShutdown" /\ promise' = "value" /\ wpc' = "stop"
          /\ UNCHANGED <<executed, finished, throwing>>
       \/ wreq = "Working" /\ executed' = Append(executed, fn) /\ wpc' = "run"
          /\ UNCHANGED <<finished, throwing, promise>>
    /\ UNCHANGED <<st, fn, mtx, wreq, control, cv>>
WStop == wpc = "stop" /\ st' = "Shutdown" /\ wpc' = "ended"
         /\ UNCHANGED <<fn, mtx, wreq, control, jobs, cv>>
WRun == /\ wpc = "run"
        /\ LET j == executed[Len(executed)] IN
           /\ finished' = finished \union {j}
           /\ wpc' = IF j \in throwing THEN "fail" ELSE "ok"
        /\ UNCHANGED <<st, fn, mtx, wreq, control, cv, executed, throwing, promise>>
WOk == wpc = "ok" /\ st' = "Spinning" /\ wpc' = "spin"
       /\ UNCHANGED <<fn, mtx, wreq, control, jobs, cv>>
WFail == wpc = "fail" /\ st' = "Exception" /\ wpc' = "fail2"
         /\ UNCHANGED <<fn, mtx, wreq, control, jobs, cv>>
WFail2 == wpc = "fail2" /\ promise' = "exception" /\ wpc' = "ended"
          /\ UNCHANGED <<st, fn, mtx, wreq, control, cv, executed, finished, throwing>>
Worker == WBoot \/ WSpin \/ WLock \/ WCas \/ WPred \/ WReread \/ WDispatch \/ WStop
          \/ WRun \/ WOk \/ WFail \/ WFail2

(*********************************** controller ****************************)
Keep == <<st, fn, mtx, worker, jobs, cv>>
CStart == cpc = "start" /\ st # "Boot" /\ cpc' = "idle" /\ UNCHANGED <<Keep, cur, cjob, accepted, rejected>>
Range(s) == {s[i] : i \in 1..Len(s)}
Used == Range(accepted) \union rejected
CAssign == /\ cpc = "idle"
           /\ \E j \in Jobs \ Used : 1..(j - 1) \subseteq Used /\ cjob' = j
           /\ cpc' = "a_busy"
           /\ UNCHANGED <<Keep, cur, accepted, rejected>>
CABusy == cpc = "a_busy" /\ st # "Working" /\ cur' = st /\ cpc' = "a_set"
          /\ UNCHANGED <<Keep, cjob, accepted, rejected>>
CASet == cpc = "a_set" /\ fn' = cjob /\ cpc' = "a_cas"
         /\ UNCHANGED <<st, mtx, worker, jobs, cv, cur, cjob, accepted, rejected>>
\* The compare-and-swap, then the case analysis on the state it found.
CACas ==
    /\ cpc = "a_cas"
    /\ LET ok == st = cur IN
       /\ cur' = st
       /\ CASE st = "Spinning" /\ ok -> st' = "Working" /\ cpc' = "idle" /\ accepted' = Append(accepted, cjob) /\ UNCHANGED rejected
            [] st = "Sleeping" /\ ok -> st' = "Working" /\ cpc' = "a_lock" /\ UNCHANGED <<accepted, rejected>>
            [] st \in {"Spinning", "Sleeping"} /\ ~ok -> UNCHANGED <<st, cpc, accepted, rejected>>
            [] st \in {"Exception", "Shutdown"} ->      \* swapped in and out again when ok
                 UNCHANGED <<st, accepted>> /\ cpc' = "idle" /\ rejected' = rejected \union {cjob}
            [] OTHER -> FALSE                            \* concurrency violation
    /\ UNCHANGED <<fn, mtx, worker, jobs, cv, cjob>>
CALock == cpc = "a_lock" /\ mtx = "none" /\ mtx' = "c" /\ cpc' = "a_unlock"
          /\ UNCHANGED <<st, fn, worker, jobs, cv, cur, cjob, accepted, rejected>>
CAUnlock == cpc = "a_unlock" /\ mtx' = "none" /\ cpc' = "a_notify"
            /\ UNCHANGED <<st, fn, worker, jobs, cv, cur, cjob, accepted, rejected>>
CANotify == /\ cpc = "a_notify"
            /\ woken' = (woken \/ waiting)
            /\ cpc' = "idle" /\ accepted' = Append(accepted, cjob)
            /\ UNCHANGED <<st, fn, mtx, worker, jobs, waiting, spur, cur, cjob, rejected>>
\* Waiting for the worker to be done with its job.
CWait == cpc = "idle" /\ cpc' = "w_busy" /\ UNCHANGED <<Keep, cur, cjob, accepted, rejected>>
CWBusy == cpc = "w_busy" /\ st # "Working" /\ cpc' = "waited" /\ UNCHANGED <<Keep, cur, cjob, accepted, rejected>>
CWaited == cpc = "waited" /\ cpc' = "idle" /\ UNCHANGED <<Keep, cur, cjob, accepted, rejected>>
\* Shutting down.
CShutdown == cpc = "idle" /\ cpc' = "s_busy" /\ UNCHANGED <<Keep, cur, cjob, accepted, rejected>>
CSBusy == cpc = "s_busy" /\ st # "Working" /\ cur' = st /\ cpc' = "s_cas"
          /\ UNCHANGED <<Keep, cjob, accepted, rejected>>
CSCas ==
    /\ cpc = "s_cas"
    /\ LET ok == st = cur IN
       /\ cur' = st
       /\ CASE st = "Spinning" /\ ok -> st' = "RequestShutdown" /\ cpc' = "s_join"
            [] st = "Sleeping" /\ ok -> st' = "RequestShutdown" /\ cpc' = "s_lock"
            [] st \in {"Spinning", "Sleeping"} /\ ~ok -> UNCHANGED <<st, cpc>>
            [] st \in {"Exception", "Shutdown"} -> UNCHANGED st /\ cpc' = "s_join"
            [] OTHER -> FALSE
    /\ UNCHANGED <<fn, mtx, worker, jobs, cv, cjob, accepted, rejected>>
CSLock == cpc = "s_lock" /\ mtx = "none" /\ mtx' = "c" /\ cpc' = "s_unlock"
          /\ UNCHANGED <<st, fn, worker, jobs, cv, cur, cjob, accepted, rejected>>
CSUnlock == cpc = "s_unlock" /\ mtx' = "none" /\ cpc' = "s_notify"
            /\ UNCHANGED <<st, fn, worker, jobs, cv, cur, cjob, accepted, rejected>>
CSNotify == cpc = "s_notify" /\ woken' = (woken \/ waiting) /\ cpc' = "s_join"
            /\ UNCHANGED <<st, fn, mtx, worker, jobs, waiting, spur, cur, cjob, accepted, rejected>>
CSJoin == cpc = "s_join" /\ wpc = "ended" /\ cpc' = "closed"
          /\ UNCHANGED <<Keep, cur, cjob, accepted, rejected>>
Busy == CStart \/ CABusy \/ CASet \/ CACas \/ CALock \/ CAUnlock \/ CANotify
        \/ CWBusy \/ CWaited \/ CSBusy \/ CSCas \/ CSLock \/ CSUnlock \/ CSNotify \/ CSJoin
Request == CAssign \/ CWait \/ CShutdown

Next == Worker \/ WWake \/ Busy \/ Request
\* Nothing is assumed about spurious wake-ups or about when the controller asks for what.
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ WF_vars(WWake /\ woken) /\ WF_vars(Busy)

(*********************************** properties ****************************)
AcceptedSet == Range(accepted)
OnceInOrder ==
    /\ \A i, k \in 1..Len(executed) : i < k => executed[i] < executed[k]
    /\ Range(executed) \intersect rejected = {}
    /\ Range(executed) \subseteq AcceptedSet \union {cjob}
ReleasedAfter == cpc = "waited" => AcceptedSet \subseteq finished
ClosedAfter == cpc = "closed" => AcceptedSet \subseteq finished /\ promise # "none"
FailureSticks ==
    /\ promise = "exception" => st = "Exception"
    /\ st = "Exception" => \E j \in throwing : j \in finished
RejectedOnlyAfterFailure == rejected # {} => st \in {"Exception", "Shutdown"}
NoConcurrencyViolation ==
    cpc \in {"a_cas", "s_cas"} => st \in {"Spinning", "Sleeping", "Exception", "Shutdown"}
Mutex == ~(mtx = "w" /\ wpc \notin {"cas", "pred"})
JobsRun == \A j \in Jobs : (j \in AcceptedSet) ~> (j \in finished)
CallsEnd == (cpc \notin {"idle", "closed"}) ~> (cpc \in {"idle", "closed"})
=============================================================================
