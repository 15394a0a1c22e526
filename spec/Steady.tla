------------------------------- MODULE Steady -------------------------------
(***************************************************************************)
(* Searching in batches.  A call splits its batch over some threads; each  *)
(* thread goes through its queries with a scratch space that it gets when  *)
(* it starts, or, kept by the caller, that was used in earlier calls.  A   *)
(* query that cannot be read ends the call with an error, in the middle of *)
(* what the others do.  Whatever came before, a row that is returned is    *)
(* the answer to its query, a function of nothing else.                    *)
(***************************************************************************)
EXTENDS BufferRules
CONSTANTS Queries, N, MaxK, MaxLen, Threads, MaxCalls, Resets
VARIABLES d, k, calls, batch, w, kept, rows, failed
vars == <<d, k, calls, batch, w, kept, rows, failed>>

Ids == 1..N
Bad == 0
Idle == [pc |-> "idle", at |-> 0, last |-> 0, next |-> 0, buf |-> <<>>]
Empty == [t \in Threads |-> <<>>]

\* The answer: the vectors offered one after the other to an empty buffer.
RECURSIVE Fold(_, _, _)
Fold(q, i, b) == IF i > N THEN b
    ELSE Fold(q, i + 1, Insert("L2", b, [id |-> i, d |-> d[q][i], vis |-> FALSE, ok |-> TRUE], k))
Answer(q) == Fold(q, 1, <<>>)

Init == /\ d \in [Queries -> [Ids -> 0..1]]
        /\ k \in 1..MaxK
        /\ calls = 0 /\ batch = <<>> /\ rows = <<>> /\ failed = FALSE
        /\ w = [t \in Threads |-> Idle]
        /\ kept = Empty

Quiet == \A t \in Threads : w[t].pc = "idle"
Low(t, n, m) == ((t - 1) * m) \div n + 1
High(t, n, m) == (t * m) \div n
Call ==
    /\ Quiet /\ calls < MaxCalls
    /\ calls' = calls + 1 /\ failed' = FALSE
    /\ \E m \in 1..MaxLen : \E b \in [1..m -> Queries \union {Bad}] :
       \E n \in Threads : \E own \in BOOLEAN :
          /\ batch' = b
          /\ rows' = [i \in 1..m |-> <<>>]
          /\ w' = [t \in Threads |->
                     IF t <= n /\ Low(t, n, m) <= High(t, n, m)
                     THEN [pc |-> "read", at |-> Low(t, n, m), last |-> High(t, n, m), next |-> 1,
                           \* Fresh, or as the caller left it.
                           buf |-> IF own THEN kept[t] ELSE <<>>]
                     ELSE Idle]
    /\ UNCHANGED <<d, k, kept>>
Read(t) ==
    /\ w[t].pc = "read"
    /\ IF batch[w[t].at] = Bad
       THEN /\ failed' = TRUE /\ w' = [w EXCEPT ![t] = Idle]
            /\ kept' = [kept EXCEPT ![t] = w[t].buf]
       ELSE /\ w' = [w EXCEPT ![t].pc = "scan", ![t].next = 1,
                              ![t].buf = IF Resets THEN <<>> ELSE @]
            /\ UNCHANGED <<failed, kept>>
    /\ UNCHANGED <<d, k, calls, batch, rows>>
Scan(t) ==
    /\ w[t].pc = "scan"
    /\ LET i == w[t].next IN
       IF i <= N
       THEN /\ w' = [w EXCEPT ![t].next = i + 1,
                        ![t].buf = Insert("L2", @, [id |-> i, d |-> d[batch[w[t].at]][i],
                                                    vis |-> FALSE, ok |-> TRUE], k)]
            /\ UNCHANGED <<rows, kept>>
       ELSE /\ rows' = [rows EXCEPT ![w[t].at] = w[t].buf]
            /\ IF w[t].at < w[t].last
               THEN /\ w' = [w EXCEPT ![t].pc = "read", ![t].at = @ + 1] /\ UNCHANGED kept
               ELSE /\ w' = [w EXCEPT ![t] = Idle] /\ kept' = [kept EXCEPT ![t] = w[t].buf]
    /\ UNCHANGED <<d, k, calls, batch, failed>>
Next == Call \/ \E t \in Threads : Read(t) \/ Scan(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E t \in Threads : Read(t) \/ Scan(t))

RowsRight == \A i \in 1..Len(rows) : rows[i] # <<>> => rows[i] = Answer(batch[i])
Complete == Quiet /\ ~failed => \A i \in 1..Len(rows) : rows[i] # <<>>
ErrorsShow == Quiet => (failed <=> \E i \in 1..Len(batch) : batch[i] = Bad)
Returns == []<>Quiet
=============================================================================
