-------------------------------- MODULE Locks --------------------------------
(***************************************************************************)
(* The spin lock as atomic steps: a compare-and-swap tried again and again *)
(* by lock(), once by try_lock(), and a store to unlock.                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Rounds

VARIABLES value, pc, left, got
vars == <<value, pc, left, got>>
Init == value = FALSE /\ pc = [t \in Threads |-> "out"] /\ left = [t \in Threads |-> Rounds]
        /\ got = [t \in Threads |-> "none"]
Want(t) == /\ pc[t] = "out" /\ left[t] > 0
           /\ \E how \in {"locking", "trying"} : pc' = [pc EXCEPT ![t] = how]
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ UNCHANGED <<value, got>>
Acquire(t) == /\ pc[t] \in {"locking", "trying"} /\ ~value
              /\ value' = TRUE /\ pc' = [pc EXCEPT ![t] = "in"] /\ got' = [got EXCEPT ![t] = "yes"]
              /\ UNCHANGED left
Fail(t) == /\ pc[t] = "trying" /\ value
           /\ pc' = [pc EXCEPT ![t] = "out"] /\ got' = [got EXCEPT ![t] = "no"]
           /\ UNCHANGED <<value, left>>
Release(t) == /\ pc[t] = "in" /\ value' = FALSE /\ pc' = [pc EXCEPT ![t] = "out"]
              /\ UNCHANGED <<left, got>>
Next == \E t \in Threads : Want(t) \/ Acquire(t) \/ Fail(t) \/ Release(t)
\* A spinning thread that finds the lock free again and again takes it in the end.
Spec == Init /\ [][Next]_vars
        /\ \A t \in Threads : SF_vars(Acquire(t)) /\ WF_vars(Release(t)) /\ WF_vars(Fail(t))
Exclusive == Cardinality({t \in Threads : pc[t] = "in"}) <= 1
HeldMeansIn == value <=> \E t \in Threads : pc[t] = "in"
Entered == \A t \in Threads : pc[t] = "locking" ~> pc[t] = "in"
=============================================================================
