----------------------------- MODULE SmallTrace -----------------------------
(* Recorded calls of k_recall_at_n and of compute_medioid / find_medioid. *)
EXTENDS Common, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Rc == INSTANCE Recall WITH Ids <- {}, Cols <- 0, Queries <- 0, gts <- <<>>, ress <- <<>>,
                           k <- 0, n <- 0, q <- 0, count <- 0
Md == INSTANCE Medioid WITH Values <- {}, MaxN <- 0, Workers <- 0, MaxChunk <- 0, data <- <<>>,
          adm <- {}, chunk <- 0, next <- 0, part <- 0, best <- 0, phase <- 0, todo <- 0
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE

DoRecall(e) ==
    LET ok == Rc!Accepted(e.gt, e.res, e.gcols, e.rcols, e.k, e.n)
    IN /\ Why("arguments accepted or refused", e.ok = ok)
       /\ ok => Why("hits", e.hits = Rc!AllHits(e.gt, e.res, Rc!Effective(e.k, e.rcols),
                                                Rc!Effective(e.n, e.rcols)))
Mapped(data) == [i \in 1..Len(data) |-> [j \in 1..Len(data[i]) |-> 2 * data[i][j] + 1]]
DoMedioid(e) ==
    LET data == TLCEval(IF e.how = "mapped" THEN Mapped(e.data) ELSE e.data)
        adm == Range(e.admitted)
    IN /\ Why("mean", e.sums = Md!SumOf(data, adm))
       /\ Why("nearest admitted vector", e.got \in Md!Nearest(data, adm))
Step(e) == CASE e.e = "recall" -> DoRecall(e)
             [] e.e = "medioid" -> DoMedioid(e)
Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1 /\ Step(Trace[l + 1]) = TRUE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
