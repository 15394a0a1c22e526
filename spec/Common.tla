------------------------------- MODULE Common -------------------------------
(* Operators shared by the specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(Range(s)) = Len(s)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

\* Op(x) with x evaluated first, and once (TLC evaluates arguments where they are used).
With(x, Op(_)) == CHOOSE r \in {Op(y) : y \in {x}} : TRUE

\* The position of a value in a sequence (which must contain it).
PosOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
SumSeq(s) == SumTo(s, Len(s))

\* The number of elements of a set of integers smaller than x.
RankIn(set, x) == Cardinality({y \in set : y < x})

(***************************************************************************)
(* Distances on vectors of integers.  Squared Euclidean distance is better *)
(* when smaller, inner product is better when larger.                      *)
(***************************************************************************)
L2(a, b) == SumSeq([i \in 1..Len(a) |-> (a[i] - b[i]) * (a[i] - b[i])])
IP(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]])

\* Cosine similarity of vectors with integer lengths (at most 64), in units of 2^-16.
Roots == [n \in {m * m : m \in 0..64} |-> CHOOSE r \in 0..64 : r * r = n]
Length(a) == Roots[IP(a, a)]
Cosine(a, b) == (IP(a, b) * 65536) \div (Length(a) * Length(b))

\* The same four-fold, for vectors whose cosines are multiples of a quarter.
Quarters(a, b) == (4 * IP(a, b)) \div (Length(a) * Length(b))

Dist(kind, a, b) ==
    IF kind = "COS" THEN Quarters(a, b) ELSE
    IF kind = "L2" THEN L2(a, b) ELSE IF kind = "cos" THEN Cosine(a, b) ELSE IP(a, b)
\* Whether a recorded distance is the specified one (cosines are rounded).
SameDist(kind, x, y) == IF kind = "cos" THEN Abs(x - y) <= 2 ELSE x = y
Better(kind, x, y) == IF kind = "L2" THEN x < y ELSE x > y
NoWorse(kind, x, y) == IF kind = "L2" THEN x <= y ELSE x >= y

\* Best-first order of a finite set under a "before" relation that is total and strict.
SetToSeqBy(S, before(_, _)) ==
    LET n == Cardinality(S)
        rank == TLCEval([x \in S |-> Cardinality({y \in S : before(y, x)})])
    IN [i \in 1..n |-> CHOOSE x \in S : rank[x] = i - 1]

\* The distances of a family of elements, best first (a sequence: repeats are kept).
SortedDistances(kind, S, d) ==
    LET before(x, y) == Better(kind, x, y)
        vals == {d[e] : e \in S}
        order == SetToSeqBy(vals, before)
        mult == [v \in vals |-> Cardinality({e \in S : d[e] = v})]
        RECURSIVE go(_, _)
        go(i, acc) ==
            IF i > Len(order) THEN acc
            ELSE go(i + 1, acc \o [j \in 1..mult[order[i]] |-> order[i]])
    IN go(1, <<>>)

Take(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, 1, k)

\* Vertices reachable from a set in a graph given as a function to sets.
RECURSIVE ReachFrom(_, _)
ReachFrom(g, R) ==
    LET N == R \union UNION {g[u] : u \in R}
    IN IF N = R THEN R ELSE ReachFrom(g, N)
=============================================================================
