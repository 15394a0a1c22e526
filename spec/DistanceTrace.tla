---------------------------- MODULE DistanceTrace ----------------------------
(***************************************************************************)
(* Distances computed by the real functors, against their definitions.     *)
(* Vectors are recorded in units of 1/Ev.unit, squared distances and inner *)
(* products in units of 1/Ev.unit^2; the driver keeps every partial sum a  *)
(* whole number of units below 2^24, which a float holds exactly.          *)
(***************************************************************************)
EXTENDS Common, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l
Ev == Trace[l + 1]
Req(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, Ev.types, Ev.n, l + 1>>) /\ FALSE

RECURSIVE L2From(_, _, _, _)
L2From(a, b, i, s) ==
    IF i > Len(a) THEN s ELSE L2From(a, b, i + 1, s + (a[i] - b[i]) * (a[i] - b[i]))
RECURSIVE IPFrom(_, _, _, _)
IPFrom(a, b, i, s) == IF i > Len(a) THEN s ELSE IPFrom(a, b, i + 1, s + a[i] * b[i])
Squared(a, b) == L2From(a, b, 1, 0)
Inner(a, b) == IPFrom(a, b, 1, 0)

\* 2^16 * x / y rounded down, for |x| <= y <= 2^23.
Ratio(x, y) ==
    LET q == (x * 256) \div y
        r == (x * 256) % y
    IN q * 256 + (r * 256) \div y

Defined ==
    CASE Ev.kind = "L2" -> Squared(Ev.a, Ev.b)
      [] Ev.kind = "IP" -> Inner(Ev.a, Ev.b)
      [] Ev.kind = "norm" -> Inner(Ev.a, Ev.a)
      [] Ev.kind = "cos" -> Ratio(Inner(Ev.a, Ev.b), Ev.na * Ev.nb)

Distance ==
    /\ Ev.e = "dist"
    /\ Req("recording", Len(Ev.a) = Ev.n /\ Len(Ev.b) = Ev.n)
    /\ Ev.kind = "cos" => Req("recording", Ev.na * Ev.na = Inner(Ev.a, Ev.a)
                                           /\ Ev.nb * Ev.nb = Inner(Ev.b, Ev.b))
    /\ CASE Ev.kind = "cos" -> Req("cosine similarity", Abs(Ev.d - Defined) <= 3)
         \* Sums too large to be exact: within one part in 4096, or 1 for each product of up to 2^16.
         [] Ev.rough -> Req("large distance", Abs(Ev.d - Defined) <= Abs(Defined) \div 4096 + Ev.n)
         [] OTHER -> Req(Ev.kind, Ev.whole /\ Ev.d = Defined)
    /\ Req("vectors left alone", Ev.same)

\* The run-time selector: its functor, its name, and the order the functor sorts by.
Meaning == [L2 |-> [functor |-> "squared_l2", first |-> "small"],
            MIP |-> [functor |-> "inner_product", first |-> "large"],
            Cosine |-> [functor |-> "cosine_similarity", first |-> "large"]]
Selector ==
    /\ Ev.e = "selector"
    /\ Req("known", Ev.types \in DOMAIN Meaning)
    /\ Req("functor", Ev.functor = Meaning[Ev.types].functor)
    /\ Req("order", Ev.first = Meaning[Ev.types].first)
    /\ Req("name parses to itself", Ev.parsed = Ev.types)
    /\ Req("functor maps back", Ev.back = Ev.types)

Wrong ==
    /\ Ev.e = "wrong"
    /\ Req("unknown names are refused", ~Ev.ok)

Init == l = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ (Distance \/ Selector \/ Wrong) = TRUE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
