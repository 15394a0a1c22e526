---------------------------- MODULE SteadyTrace ----------------------------
(***************************************************************************)
(* Recorded histories of one index after another: an index is a function   *)
(* from (parameters, number of neighbours, filter, query) to an answer,    *)
(* found out call by call; what else can be observed changes only through  *)
(* the calls that set it.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, answers, state, inforce, threads, texts
vars == <<l, answers, state, inforce, threads, texts>>
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE

Nothing == [x \in {} |-> <<>>]
Same(e) == /\ Why("nothing observable changes", e.state = state)
           /\ UNCHANGED state
Kept(e) == /\ Why("parameters in force stay", e.inforce = inforce)
           /\ Why("threads stay", e.threads = threads)
           /\ UNCHANGED <<inforce, threads, texts>>

Begin(e) ==
    /\ answers' = Nothing /\ texts' = Nothing
    /\ state' = e.state /\ inforce' = e.inforce /\ threads' = e.threads

Threads(e) ==
    /\ Same(e)
    /\ Why("parameters in force stay", e.inforce = inforce)
    /\ Why("threads as set", e.threads = e.set)
    /\ threads' = e.threads
    /\ UNCHANGED <<answers, inforce, texts>>

\* The same parameters read the same whenever they are set.
Params(e) ==
    /\ Same(e)
    /\ Why("threads stay", e.threads = threads)
    /\ Why("parameters as set", e.set \in DOMAIN texts => texts[e.set] = e.inforce)
    /\ texts' = (e.set :> e.inforce) @@ texts
    /\ inforce' = e.inforce
    /\ UNCHANGED <<answers, threads>>

Key(e, i) == <<e.p, e.k, e.filter, e.which[i]>>
Search(e) ==
    LET n == Len(e.which)
        keys == {Key(e, i) : i \in 1..n}
        first == [key \in keys |-> e.rows[CHOOSE i \in 1..n : Key(e, i) = key]]
    IN /\ Same(e) /\ Kept(e)
       /\ Why("a row for every query", Len(e.rows) = n)
       /\ Why("the same answer within the batch",
              \A i \in 1..n : e.rows[i] = first[Key(e, i)])
       /\ Why("the same answer as before",
              \A key \in keys \cap DOMAIN answers : first[key] = answers[key])
       /\ answers' = first @@ answers

Broken(e) == /\ Same(e) /\ Kept(e) /\ Why("the error is passed on", e.err) /\ UNCHANGED answers
Other(e) == Same(e) /\ Kept(e) /\ UNCHANGED answers

Step(e) == CASE e.e = "begin" -> Begin(e)
             [] e.e = "threads" -> Threads(e)
             [] e.e = "params" -> Params(e)
             [] e.e = "search" -> Search(e)
             [] e.e = "broken" -> Broken(e)
             [] e.e = "calibrated" -> Other(e)
             [] e.e = "saved" -> Other(e)
Init == l = 0 /\ answers = Nothing /\ state = "" /\ inforce = "" /\ threads = 0 /\ texts = Nothing
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
