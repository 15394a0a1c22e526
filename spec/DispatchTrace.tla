--------------------------- MODULE DispatchTrace ---------------------------
(* Recorded calls of the real dispatcher against the rules of Dispatch. *)
EXTENDS Common, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, methods
vars == <<l, methods>>
R == INSTANCE Dispatch WITH Methods <- 0, Args <- 0, Values <- {}, scores <- <<>>, i <- 0, best <- 0
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE

Call(e) ==
    LET scores == TLCEval([k \in 1..Len(methods) |-> R!ScoreOf(methods[k], e.a, e.b, e.c)])
        choice == TLCEval(R!Choice(scores))
    IN /\ Why("best match", e.best = choice)
       /\ Why("whether there is a match", e.has = (choice /= -1))
       /\ Why("error exactly when nothing matches", e.error = (choice = -1))
       /\ Why("method called", e.called = choice)
       /\ Why("no conversion of an argument that does not match", e.forced = 0)
       /\ choice /= -1 =>
            /\ Why("score", e.score = scores[choice + 1])
            /\ Why("result", e.ret = 1000 + choice)
            /\ Why("arguments as converted", e.seen = R!Given(methods[choice + 1], e.a, e.b, e.c))
       /\ UNCHANGED methods
Step(e) == CASE e.e = "methods" -> /\ methods' = e.methods
                                   /\ Why("number of methods", e.size = Len(e.methods))
             [] e.e = "call" -> Call(e)
Init == l = 0 /\ methods = <<>>
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
