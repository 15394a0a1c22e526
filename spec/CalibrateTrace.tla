--------------------------- MODULE CalibrateTrace ---------------------------
(* Recorded calls of vamana::calibrate: with a synthetic recall measure, and through the      *)
(* indexes.                                                                                    *)
EXTENDS Common, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ca == INSTANCE Calibrate WITH MaxW <- 0, MaxC <- 0, Modes <- {}, p <- 0, up <- {}, phase <- "",
        lo <- 0, len <- 0, cur <- 0, best <- FALSE, sws <- 0, seen <- {}, tuned <- FALSE
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE

\* Search parameters are recorded as <<window, capacity, visited set, lookahead, step>>.
BufOf(s) == Ca!Cfg(s[1], s[2])
Initial(e) == IF e.existing THEN e.preset ELSE e.default
Prob(e) == [wu |-> e.wu, cu |-> e.cu, k |-> e.k, mode |-> e.mode, rerank |-> e.rerank,
            init |-> BufOf(Initial(e)), target |-> e.target, train |-> e.train]
Rec(e, f) == Min(e.top, (e.a * f.w + e.b * f.c) \div e.d)
PrefetchAllowed(e, s) == s[4] <= e.degree /\ s[5] \in ({0} \union Range(e.steps))

DoCalibrate(e) ==
    LET q == TLCEval(Prob(e))
        init == Initial(e)
        R(f) == Rec(e, f)
        f == BufOf(e.got)
        met == Ca!Meeting(q, R) # {}
    IN /\ Why("driver keeps to the preconditions", Ca!Sound(q))
       /\ Why("no error", ~e.err)
       /\ Why("measured within the ranges",
              \A i \in 1..Len(e.measured) : Ca!MayMeasure(q, BufOf(e.measured[i])))
       /\ Why("searched within the ranges",
              \A i \in 1..Len(e.searched) :
                  \/ Ca!MayMeasure(q, BufOf(e.searched[i]))
                  \/ e.mode = "Disable" /\ BufOf(e.searched[i]) = q.init)
       /\ Why("prefetching tried within its range",
              \A i \in 1..Len(e.searched) :
                  \/ PrefetchAllowed(e, e.searched[i]) /\ e.train
                  \/ e.searched[i][4] = init[4] /\ e.searched[i][5] = init[5])
       /\ Why("window and capacity", Ca!GoodConfig(q, R, f))
       /\ Why("target reached when possible", met /\ e.mode # "Disable" => R(f) >= e.target)
       /\ Why("visited set setting kept", e.got[3] = init[3])
       /\ IF Ca!MayTune(q, R)
          THEN Why("prefetching as tuned",
                   PrefetchAllowed(e, e.got) \/ (e.got[4] = init[4] /\ e.got[5] = init[5]))
          ELSE Why("prefetching kept", e.got[4] = init[4] /\ e.got[5] = init[5])

\* Through an index: hits is the number of neighbours found with what was returned.
DoIndex(e) ==
    LET init == Initial(e)
        q == TLCEval(Prob(e))
        f == BufOf(e.got)
    IN /\ Why("no error", ~e.err)
       /\ Why("returned parameters are in force", e.inforce = e.got)
       /\ Why("visited set setting kept", e.got[3] = init[3])
       /\ Why("buffer in range", IF e.mode = "Disable" THEN f = q.init ELSE Ca!MayMeasure(q, f))
       /\ Why("target reached or largest window",
              e.mode = "Disable" \/ e.hits >= e.target \/ f.w = e.wu)
       \* The largest window of a range is taken without being measured: then nothing is tuned.
       /\ Why("prefetching", IF e.train /\ (e.mode = "Disable" \/ e.hits >= e.target)
                             THEN PrefetchAllowed(e, e.got) \/ (e.got[4] = init[4] /\ e.got[5] = init[5])
                             ELSE e.got[4] = init[4] /\ e.got[5] = init[5])
Step(e) == CASE e.e = "calibrate" -> DoCalibrate(e)
             [] e.e = "index" -> DoIndex(e)
Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1 /\ Step(Trace[l + 1]) = TRUE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
