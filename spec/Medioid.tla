------------------------------- MODULE Medioid -------------------------------
(***************************************************************************)
(* The default entry point (core/medioid.h): the admissible vector nearest *)
(* to the mean of the admissible vectors.  Everything is scaled by the     *)
(* number of admissible vectors to stay within the integers.               *)
(***************************************************************************)
EXTENDS Common

SumOf(data, adm) ==
    LET dims == Len(data[1])
        RECURSIVE S(_, _)
        S(A, j) == IF A = {} THEN 0 ELSE LET x == CHOOSE x \in A : TRUE
                                         IN data[x + 1][j] + S(A \ {x}, j)
    IN [j \in 1..dims |-> S(adm, j)]
\* Count^2 times the squared distance to the mean.
Scaled(data, sums, count, i) ==
    SumSeq([j \in 1..Len(sums) |-> (sums[j] - count * data[i + 1][j]) * (sums[j] - count * data[i + 1][j])])
Nearest(data, adm) ==
    LET sums == TLCEval(SumOf(data, adm))
        count == Cardinality(adm)
        d == [i \in adm |-> Scaled(data, sums, count, i)]
    IN {i \in adm : \A k \in adm : d[i] <= d[k]}

-----------------------------------------------------------------------------
(***************************************************************************)
(* Design: workers take chunks in turn and add them to their own sums;     *)
(* the sums are added up; workers then look for the nearest vector of      *)
(* their share each, and the best of these is the answer.                  *)
(***************************************************************************)
CONSTANTS Values, MaxN, Workers, MaxChunk
VARIABLES data, adm, chunk, next, part, best, phase, todo
dvars == <<data, adm, chunk, next, part, best, phase, todo>>
W == 1..Workers
N == Len(data)
None == -1

DInit == /\ \E m \in 1..MaxN : data \in [1..m -> {<<v>> : v \in Values}]
         /\ adm \in (SUBSET (0..(Len(data) - 1))) \ {{}}
         /\ chunk \in 1..MaxChunk /\ next = 0
         /\ part = [w \in W |-> [sum |-> 0, count |-> 0]]
         /\ best = [w \in W |-> None] /\ phase = "sum" /\ todo = W
Piece(lo) == {i \in adm : i >= lo /\ i < lo + chunk}
RECURSIVE Total(_)
Total(A) == IF A = {} THEN 0 ELSE LET x == CHOOSE x \in A : TRUE IN data[x + 1][1] + Total(A \ {x})
Take1(w) == /\ phase = "sum" /\ next < N
            /\ part' = [part EXCEPT ![w].sum = @ + Total(Piece(next)), ![w].count = @ + Cardinality(Piece(next))]
            /\ next' = next + chunk
            /\ UNCHANGED <<data, adm, chunk, best, phase, todo>>
Reduce == /\ phase = "sum" /\ next >= N /\ phase' = "find"
          /\ UNCHANGED <<data, adm, chunk, next, part, best, todo>>
RECURSIVE Add(_, _)
Add(f, A) == IF A = {} THEN 0 ELSE LET x == CHOOSE x \in A : TRUE IN f[x] + Add(f, A \ {x})
Sum == Add([w \in W |-> part[w].sum], W)
Count == Add([w \in W |-> part[w].count], W)
D(i) == Scaled(data, <<Sum>>, Count, i)
Share(w) == {i \in adm : i >= ((w - 1) * N) \div Workers /\ i < (w * N) \div Workers}
Before(i, k) == D(i) < D(k) \/ (D(i) = D(k) /\ i < k)
Least(A) == IF A = {} THEN None ELSE CHOOSE i \in A : \A k \in A \ {i} : Before(i, k)
Find(w) == /\ phase = "find" /\ w \in todo
           /\ best' = [best EXCEPT ![w] = Least(Share(w))]
           /\ todo' = todo \ {w}
           /\ UNCHANGED <<data, adm, chunk, next, part, phase>>
DNext == Reduce \/ \E w \in W : Take1(w) \/ Find(w)
DSpec == DInit /\ [][DNext]_dvars
Answer == Least({best[w] : w \in W} \ {None})
AtEnd == (phase = "find" /\ todo = {}) =>
    /\ Sum = SumOf(data, adm)[1] /\ Count = Cardinality(adm)
    /\ Answer \in Nearest(data, adm)
    /\ \A i \in Nearest(data, adm) : Answer <= i
=============================================================================
