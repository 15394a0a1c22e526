-------------------------------- MODULE Kernel --------------------------------
(***************************************************************************)
(* How a distance is summed: four accumulators over blocks of 4 W          *)
(* elements, one over blocks of W, and a masked block of W for the rest.   *)
(* Each position of the vectors must end up in the sum exactly once, and   *)
(* no position outside them may be read.                                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS MaxLength, Widths

VARIABLES n, W, i, acc, phase, reads
vars == <<n, W, i, acc, phase, reads>>

Block(from) == from..(from + W - 1)
\* acc[k]: how often each position was added to accumulator k.
Add(f, S) == [p \in DOMAIN f |-> f[p] + (IF p \in S THEN 1 ELSE 0)]
None == [p \in 0..(MaxLength + 16) |-> 0]

Init ==
    /\ n \in 0..MaxLength
    /\ W \in Widths
    /\ i = 0
    /\ acc = [k \in 0..3 |-> None]
    /\ phase = "main"
    /\ reads = {}

Main ==
    /\ phase = "main"
    /\ IF i + 4 * W <= n
       THEN /\ acc' = [k \in 0..3 |-> Add(acc[k], Block(i + k * W))]
            /\ reads' = reads \union i..(i + 4 * W - 1)
            /\ i' = i + 4 * W
            /\ UNCHANGED phase
       ELSE /\ acc' = [k \in 0..3 |->
                         IF k = 0 THEN [p \in DOMAIN None |->
                                          acc[0][p] + acc[1][p] + acc[2][p] + acc[3][p]]
                         ELSE None]
            /\ phase' = "full"
            /\ UNCHANGED <<i, reads>>
    /\ UNCHANGED <<n, W>>

Full ==
    /\ phase = "full"
    /\ IF i + W <= n
       THEN /\ acc' = [acc EXCEPT ![0] = Add(@, Block(i))]
            /\ reads' = reads \union Block(i)
            /\ i' = i + W
            /\ UNCHANGED phase
       ELSE phase' = "tail" /\ UNCHANGED <<acc, i, reads>>
    /\ UNCHANGED <<n, W>>

\* Lane k of the mask is set when k < n mod W; all are when that is 0 (then nothing is left).
Lanes == IF n % W = 0 THEN 0..(W - 1) ELSE 0..((n % W) - 1)
Tail ==
    /\ phase = "tail"
    /\ IF i < n
       THEN /\ acc' = [acc EXCEPT ![0] = Add(@, {i + k : k \in Lanes})]
            /\ reads' = reads \union {i + k : k \in Lanes}
       ELSE UNCHANGED <<acc, reads>>
    /\ phase' = "done"
    /\ UNCHANGED <<n, W, i>>

Next == Main \/ Full \/ Tail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NothingOutside == reads \subseteq 0..(n - 1)
EachOnce == phase = "done" => \A p \in DOMAIN None : acc[0][p] = (IF p < n THEN 1 ELSE 0)
Ends == <>(phase = "done")
=============================================================================
