------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Dispatch (lib/dispatcher.h).  A method is a sequence of target names;   *)
(* its score for given arguments is a sequence of integers, negative for   *)
(* an argument it cannot take, better when smaller, compared from the left.*)
(***************************************************************************)
EXTENDS Common

Valid(score) == \A i \in 1..Len(score) : score[i] >= 0
\* Strict lexicographic order.
Before(x, y) == \E i \in 1..Len(x) : x[i] < y[i] /\ \A k \in 1..(i - 1) : x[k] = y[k]
\* The index of the method to call (from 0), or -1: the valid one that none beats, the first
\* of those that are equal.
Choice(scores) ==
    LET V == {m \in 1..Len(scores) : Valid(scores[m])}
        B == {m \in V : /\ \A k \in V : ~Before(scores[k], scores[m])
                        /\ \A k \in V : k < m => scores[k] /= scores[m]}
    IN IF V = {} THEN -1 ELSE (CHOOSE m \in B : TRUE) - 1

\* The library's own conversions.
ExtentScore(target, arg) ==
    IF target = "E" \o arg.v THEN 0
    ELSE IF target = "Edyn" /\ ~arg.force THEN 1 ELSE -1
Implicit == 10000
\* An argument with a score for each of three targets, a flag for a fourth, and itself.
ScoredScore(target, arg) ==
    CASE target = "T0" -> arg.s[1]
      [] target = "T1" -> arg.s[2]
      [] target = "T2" -> arg.s[3]
      [] target = "Y" -> IF arg.flag THEN 0 ELSE -1
      [] target = "S" -> Implicit
      [] OTHER -> -1
\* A union matches as the alternative it holds does.
UnionScore(target, arg) ==
    IF arg.alt = "S" THEN ScoredScore(target, arg.val)
    ELSE IF target = arg.alt THEN Implicit ELSE -1

ScoreOf(method, a, b, c) ==
    <<ScoredScore(method[1], a), ExtentScore(method[2], b), UnionScore(method[3], c)>>
\* What a method is given.
Given(method, a, b, c) ==
    <<method[1] \o ":" \o a.p,
      IF method[2] = "Edyn" THEN "E:dyn" ELSE "E:" \o b.v,
      IF c.alt = "S" THEN method[3] \o ":" \o c.val.p ELSE c.alt \o ":" \o c.val>>

-----------------------------------------------------------------------------
(***************************************************************************)
(* Design: one pass over the methods that keeps the best so far.           *)
(***************************************************************************)
CONSTANTS Methods, Args, Values
SmallValues == {-1, 0, 1}
VARIABLES scores, i, best
dvars == <<scores, i, best>>
DInit == /\ \E m \in 0..Methods : scores \in [1..m -> [1..Args -> Values]]
         /\ i = 1 /\ best = 0
DNext == /\ i <= Len(scores)
         /\ best' = IF Valid(scores[i]) /\ (best = 0 \/ Before(scores[i], scores[best])) THEN i ELSE best
         /\ i' = i + 1
         /\ UNCHANGED scores
DSpec == DInit /\ [][DNext]_dvars
AtEnd == i > Len(scores) => best - 1 = Choice(scores)
\* What the rule promises, said differently.
Promise == LET c == Choice(scores) + 1 IN
    /\ (c = 0) = (\A m \in 1..Len(scores) : ~Valid(scores[m]))
    /\ c > 0 => /\ Valid(scores[c])
                /\ \A m \in 1..Len(scores) : Valid(scores[m]) =>
                      (Before(scores[c], scores[m]) \/ (scores[c] = scores[m] /\ c <= m))
=============================================================================
