----------------------------- MODULE NumberTrace -----------------------------
(* Recorded conversions of the real code against NumberRules. *)
EXTENDS NumberRules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l>>) /\ FALSE

Decode(e) == Why("a half widens exactly",
    \A i \in 1..Len(e.got) : LET h == e.from + i - 1 IN
        IF HalfIsNaN(h) THEN IsNaN(e.got[i]) ELSE e.got[i] = Widen(h))
Encode(e) == Why("a float rounds to the nearest half",
    \A i \in 1..Len(e.got) : LET f == e.got[i] IN
        IF IsNaN(f) THEN HalfIsNaN(f[3]) ELSE f[3] = Narrow(f))
Checked(e) ==
    /\ Why("refused exactly when the number would change", e.ok = (~e.part /\ Fits(e.x, e.to)))
    /\ Why("the number itself", e.ok => (Tail(e.y) = Tail(e.x) /\ (IsZero(e.x) \/ e.y[1] = e.x[1])))
Version(e) ==
    LET a == e.a
        b == e.b
        less == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ a[2] < b[2]
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
    IN /\ Why("text", e.text = "v" \o ToString(a[1]) \o "." \o ToString(a[2]) \o "." \o ToString(a[3]))
       /\ Why("text and back", e.back = a /\ e.refused)
       /\ Why("order", /\ e.less = less /\ e.equal = (a = b) /\ e.greater = (~less /\ a # b)
                       /\ e.atmost = (less \/ a = b) /\ e.atleast = ~less)
RECURSIVE Value(_)
Value(ds) == IF ds = <<>> THEN 0 ELSE 10 * Value(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)]
\* "v", then three numbers with dots between them.
Text(e) ==
    LET c == e.chars
        dots == {i \in 1..Len(c) : c[i] = 10}
        good == /\ Len(c) > 0 /\ c[1] = 11
                /\ \A i \in 2..Len(c) : c[i] <= 10
                /\ Cardinality(dots) = 2
                /\ Len(c) \notin dots
                /\ \A i \in dots : i > 2 /\ (i + 1) \notin dots
    IN /\ Why("malformed versions are refused", e.ok = good)
       /\ good => LET a == (CHOOSE i \in dots : \A j \in dots : i <= j)
                      b == (CHOOSE i \in dots : \A j \in dots : i >= j)
                  IN Why("the numbers in the text",
                         e.got = <<Value(SubSeq(c, 2, a - 1)), Value(SubSeq(c, a + 1, b - 1)), Value(SubSeq(c, b + 1, Len(c)))>>)
Step(e) == CASE e.e = "decode" -> Decode(e)
             [] e.e = "encode" -> Encode(e)
             [] e.e = "narrow" -> Checked(e)
             [] e.e = "text" -> Text(e)
             [] e.e = "version" -> Version(e)
Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1 /\ Step(Trace[l + 1]) = TRUE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
