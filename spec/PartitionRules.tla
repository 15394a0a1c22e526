---------------------------- MODULE PartitionRules ----------------------------
(***************************************************************************)
(* What partitioning work among workers promises.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* shares: sequence over the workers in order of [lo, hi, size], the half-open interval of
\* positions of each; positions may be numbers or any other values standing for them.
Contiguous(shares, zero, n) ==
    /\ Len(shares) > 0
    /\ shares[1].lo = zero
    /\ shares[Len(shares)].hi = n
    /\ \A k \in 1..(Len(shares) - 1) : shares[k].hi = shares[k + 1].lo
\* Distinct intervals [lo, hi) that together are 0..n-1.
Exactly(chunks, n) ==
    /\ \A k \in DOMAIN chunks : 0 <= chunks[k].lo /\ chunks[k].lo <= chunks[k].hi /\ chunks[k].hi <= n
    /\ \A i, k \in DOMAIN chunks : i # k => chunks[i].hi <= chunks[k].lo \/ chunks[k].hi <= chunks[i].lo
                                            \/ chunks[i].lo = chunks[i].hi \/ chunks[k].lo = chunks[k].hi
    /\ \A x \in 0..(n - 1) : \E k \in DOMAIN chunks : chunks[k].lo <= x /\ x < chunks[k].hi
=============================================================================
