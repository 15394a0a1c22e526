------------------------------ MODULE ThreadPool ------------------------------
(***************************************************************************)
(* A thread pool (NativeThreadPoolBase): submissions and resizes guarded   *)
(* by one mutex, workers as ThreadControl abstracts them (a worker takes a *)
(* job, runs it, and is idle again or failed; a failed one is restarted by *)
(* the submission that saw it fail).                                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS MaxWorkers,   \* greatest size of the pool
          Clients,      \* submitting threads
          JobsEach,     \* submissions per client
          Resizes       \* resizes made by the first client

Ids == 0..(MaxWorkers - 1)
Jobs == Clients \X (1..JobsEach)
None == <<0, 0>>

VARIABLES
    n,          \* current size; workers 1..n-1 are threads, 0 is the submitting thread
    w,          \* worker id -> [st |-> "idle", "busy" or "failed", job |-> job]
    mtx,        \* client holding the mutex, 0 when free
    pc, left,   \* control point and submissions left, by client
    i,          \* loop counter of the client inside run
    throws,     \* <<job, id>> pairs that will throw
    started, ended, \* sets of <<job, id>>
    size,       \* job -> size of the pool when it ran
    result,     \* job -> "none", "ok", "error"
    resizes
vars == <<n, w, mtx, pc, left, i, throws, started, ended, size, result, resizes>>
Job(c) == <<c, JobsEach - left[c] + 1>>

Init ==
    /\ n \in 1..MaxWorkers
    /\ w = [k \in Ids |-> [st |-> "idle", job |-> None]]
    /\ mtx = 0
    /\ pc = [c \in Clients |-> "out"] /\ left = [c \in Clients |-> JobsEach]
    /\ i = 0
    /\ throws \in SUBSET (Jobs \X Ids)
    /\ started = {} /\ ended = {}
    /\ size = [j \in Jobs |-> 0]
    /\ result = [j \in Jobs |-> "none"]
    /\ resizes = Resizes
\* A worker runs what it was given.
Work(k) ==
    /\ w[k].st = "busy"
    /\ IF <<w[k].job, k>> \notin started
       THEN started' = started \union {<<w[k].job, k>>} /\ UNCHANGED <<w, ended>>
       ELSE /\ ended' = ended \union {<<w[k].job, k>>}
            /\ w' = [w EXCEPT ![k].st = IF <<w[k].job, k>> \in throws THEN "failed" ELSE "idle"]
            /\ UNCHANGED started
    /\ UNCHANGED <<n, mtx, pc, left, i, throws, size, result, resizes>>

Goto(c, p) == pc' = [pc EXCEPT ![c] = p]
Frame == <<throws, resizes>>
Enter(c) == /\ pc[c] = "out" /\ left[c] > 0 /\ mtx = 0
            /\ mtx' = c /\ i' = 1 /\ Goto(c, "assign")
            /\ size' = [size EXCEPT ![Job(c)] = n]
            /\ UNCHANGED <<n, w, left, started, ended, result, Frame>>
Assign(c) ==
    /\ pc[c] = "assign"
    /\ IF i < n
       THEN /\ w[i].st = "idle"              \* an earlier submission waited for it
            /\ w' = [w EXCEPT ![i] = [st |-> "busy", job |-> Job(c)]] /\ i' = i + 1 /\ UNCHANGED pc
       ELSE i' = 1 /\ Goto(c, "self") /\ UNCHANGED w
    /\ UNCHANGED <<n, mtx, left, started, ended, size, result, Frame>>
Self(c) ==
    /\ pc[c] = "self"
    /\ IF <<Job(c), 0>> \notin started
       THEN started' = started \union {<<Job(c), 0>>} /\ UNCHANGED <<ended, pc>>
       ELSE ended' = ended \union {<<Job(c), 0>>} /\ UNCHANGED started
            /\ Goto(c, IF <<Job(c), 0>> \in throws THEN "recover" ELSE "wait")
    /\ UNCHANGED <<n, w, mtx, left, i, size, result, Frame>>
Wait(c) ==
    /\ pc[c] = "wait"
    /\ IF i < n
       THEN /\ w[i].st # "busy"
            /\ IF w[i].st = "failed" THEN Goto(c, "recover") /\ i' = 1 ELSE i' = i + 1 /\ UNCHANGED pc
            /\ UNCHANGED <<result, mtx, left>>
       ELSE /\ result' = [result EXCEPT ![Job(c)] = "ok"]
            /\ mtx' = 0 /\ left' = [left EXCEPT ![c] = @ - 1] /\ Goto(c, "out") /\ i' = 0
    /\ UNCHANGED <<n, w, started, ended, size, Frame>>
\* Every worker is waited for and the failed ones restarted before the error is raised.
Recover(c) ==
    /\ pc[c] = "recover"
    /\ IF i < n
       THEN /\ w[i].st # "busy"
            /\ w' = [w EXCEPT ![i].st = "idle"] /\ i' = i + 1
            /\ UNCHANGED <<result, mtx, left, pc>>
       ELSE /\ result' = [result EXCEPT ![Job(c)] = "error"]
            /\ mtx' = 0 /\ left' = [left EXCEPT ![c] = @ - 1] /\ Goto(c, "out") /\ i' = 0
            /\ UNCHANGED w
    /\ UNCHANGED <<n, started, ended, size, Frame>>
\* Destroying a worker joins its thread: it is idle by then.
Resize(c) ==
    /\ c = 1 /\ pc[c] = "out" /\ mtx = 0 /\ resizes > 0
    /\ \E m \in 1..MaxWorkers :
        /\ \A k \in m..(n - 1) : w[k].st = "idle"
        /\ n' = m
    /\ resizes' = resizes - 1
    /\ UNCHANGED <<w, mtx, pc, left, i, throws, started, ended, size, result>>
Client(c) == Enter(c) \/ Assign(c) \/ Self(c) \/ Wait(c) \/ Recover(c)
Next == (\E k \in Ids : Work(k)) \/ \E c \in Clients : Client(c) \/ Resize(c)
Spec == Init /\ [][Next]_vars /\ (\A k \in Ids : WF_vars(Work(k)))
        /\ \A c \in Clients : WF_vars(Assign(c) \/ Self(c) \/ Wait(c) \/ Recover(c)) /\ SF_vars(Enter(c))

(*********************************** properties ****************************)
Of(S, j) == {p[2] : p \in {q \in S : q[1] = j}}
ReturnedAfterAll == \A j \in Jobs : result[j] # "none" =>
    /\ Of(started, j) = 0..(size[j] - 1) /\ Of(ended, j) = Of(started, j)
ErrorExactly == \A j \in Jobs : result[j] # "none" =>
    (result[j] = "error" <=> \E k \in Of(started, j) : <<j, k>> \in throws)
NoneAbandoned == \A k \in Ids : w[k].st = "busy" => k < n /\ mtx # 0
Healthy == mtx = 0 => \A k \in Ids : w[k].st = "idle"
EveryCallEnds == \A j \in Jobs : <>(result[j] # "none")
=============================================================================
