----------------------------- MODULE PruneDesign -----------------------------
(***************************************************************************)
(* The pruning rules over every small arrangement of vectors: what the     *)
(* property promises follows from the rules, for every factor and limit.   *)
(***************************************************************************)
EXTENDS VamanaOps
CONSTANTS N, Coord, Dims, Kind, Alphas, MaxLimit

AlphaL2 == {<<1, 1>>, <<5, 4>>, <<3, 2>>, <<2, 1>>}
AlphaIP == {<<1, 1>>, <<3, 4>>, <<1, 2>>}

VARIABLES pts, alpha, limit, out
vars == <<pts, alpha, limit, out>>
None == [legacy |-> <<>>, usual |-> <<>>, iterative |-> <<>>]

Points == IF Dims = 1 THEN {<<x>> : x \in Coord} ELSE {<<x, y>> : x \in Coord, y \in Coord}
Init == /\ pts \in [0..(N - 1) -> Points]
        /\ alpha \in Alphas
        /\ limit \in 1..MaxLimit
        /\ out = None

\* Vertex 0 prunes a pool of all vectors (itself included).
D == DistTable(Kind, pts)
Pool == PoolOf(Kind, DOMAIN pts, D[0], N)
Next == /\ out = None
        /\ LET d == TLCEval(D)
               p == TLCEval(Pool)
           IN out' = [legacy |-> PruneLegacy(Kind, alpha, p, 0, d, limit),
                      usual |-> Prune(Kind, alpha, p, 0, d, limit),
                      iterative |-> PruneIterative(Kind, alpha, p, 0, d, limit)]
        /\ UNCHANGED <<pts, alpha, limit>>
Spec == Init /\ [][Next]_vars

Others == DOMAIN pts \ {0}
Good(o) ==
    LET d == TLCEval(D)
        p == TLCEval(Pool)
        at == [x \in DOMAIN pts |-> CHOOSE i \in 1..Len(p) : p[i].id = x]
        kept == Range(o)
    IN /\ Len(o) <= limit
       /\ NoDup(o) /\ kept \subseteq Others
       /\ Others # {} => o # <<>> /\ \A x \in Others : at[o[1]] <= at[x]
       /\ Len(o) < limit =>
            \A x \in Others \ kept : \E y \in kept : at[y] < at[x] /\ BeatsBy(Kind, alpha, d[y][x], d[0][x])
Bounded == out # None => \A f \in DOMAIN out : Good(out[f])
\* With factor one every rule is the same scan.
OneScan == out # None /\ alpha = <<1, 1>> => out.legacy = out.usual /\ out.iterative = out.usual
=============================================================================
