------------------------------ MODULE Contents ------------------------------
(***************************************************************************)
(* Datasets and graphs as containers.                                      *)
(*                                                                         *)
(* Rules: a dataset is a sequence of elements; <<>> stands for an element  *)
(* whose content nobody has set.  A graph is a sequence of sets.           *)
(***************************************************************************)
EXTENDS Common

Unset == <<>>
Resized(c, n) == [i \in 1..n |-> IF i <= Len(c) THEN c[i] ELSE Unset]
\* Element k of the result is element map[k] (from 0) of the original; what lies beyond
\* the map is no longer of interest.
Compacted(c, map) == [i \in 1..Len(c) |-> IF i <= Len(map) THEN c[map[i] + 1] ELSE Unset]

EdgeAdded(g, deg, src, dst) ==
    IF src = dst \/ Cardinality(g[src + 1]) >= deg THEN g ELSE [g EXCEPT ![src + 1] = @ \union {dst}]

-----------------------------------------------------------------------------
(***************************************************************************)
(* Design: blocked storage, and compaction in batches through a buffer,    *)
(* the elements of a batch being copied in any order.                      *)
(***************************************************************************)
CONSTANTS MaxN, BlockSize, MaxBatch
VARIABLES blocks, size, abs, job
dvars == <<blocks, size, abs, job>>

Cap(b) == Len(b) * BlockSize
At(i) == blocks[i \div BlockSize + 1][(i % BlockSize) + 1]
Put(b, i, x) == [b EXCEPT ![i \div BlockSize + 1][(i % BlockSize) + 1] = x]
NewBlock == [i \in 1..BlockSize |-> 0]
BlocksFor(n) == (n + BlockSize - 1) \div BlockSize
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Lt(x, y) == x < y
Maps(n) == {SetToSeqBy(S, Lt) : S \in SUBSET (0..(n - 1))}
Idle == [op |-> "idle"]

\* Elements are numbered 1, 2, ... in the order they were first set; 0 is unset.
DInit == /\ size \in 0..MaxN
         /\ blocks = [b \in 1..BlocksFor(size) |->
                         [i \in 1..BlockSize |-> IF (b - 1) * BlockSize + i <= size
                                                 THEN (b - 1) * BlockSize + i ELSE 0]]
         /\ abs = [i \in 1..size |-> i]
         /\ job = Idle
RECURSIVE Grown(_, _), Shrunk(_, _)
Grown(b, n) == IF Cap(b) >= n THEN b ELSE Grown(Append(b, NewBlock), n)
Shrunk(b, n) == IF Cap(b) - BlockSize > n THEN Shrunk(SubSeq(b, 1, Len(b) - 1), n) ELSE b
Resize(n) ==
    /\ job = Idle /\ n /= size
    /\ blocks' = IF n > size THEN Grown(blocks, n) ELSE Shrunk(blocks, n)
    /\ size' = n
    /\ abs' = [i \in 1..n |-> IF i <= size THEN abs[i] ELSE 0]
    /\ UNCHANGED job
StartCompact(map, batch) ==
    /\ job = Idle
    /\ job' = [op |-> "gather", map |-> map, batch |-> Min(batch, size), start |-> 0,
               todo |-> 0..(Min(Min(batch, size), Len(map)) - 1), buf |-> [i \in {} |-> 0]]
    /\ abs' = [i \in 1..size |-> IF i <= Len(map) THEN abs[map[i] + 1] ELSE 0]
    /\ UNCHANGED <<blocks, size>>
Stop(j) == Min(j.start + j.batch, Len(j.map))
Gather == /\ job.op = "gather" /\ job.todo /= {}
          /\ \E k \in job.todo :
                job' = [job EXCEPT !.todo = @ \ {k},
                        !.buf = [i \in DOMAIN @ \union {k} |->
                                   IF i = k THEN At(job.map[job.start + k + 1]) ELSE @[i]]]
          /\ UNCHANGED <<blocks, size, abs>>
ToScatter == /\ job.op = "gather" /\ job.todo = {}
             /\ job' = [job EXCEPT !.op = "scatter", !.todo = DOMAIN job.buf]
             /\ UNCHANGED <<blocks, size, abs>>
Scatter == /\ job.op = "scatter" /\ job.todo /= {}
           /\ \E k \in job.todo :
                /\ blocks' = Put(blocks, job.start + k, job.buf[k])
                /\ job' = [job EXCEPT !.todo = @ \ {k}]
           /\ UNCHANGED <<size, abs>>
NextBatch == /\ job.op = "scatter" /\ job.todo = {}
             /\ LET start == Stop(job)
                    j == [job EXCEPT !.start = start] IN
                job' = IF start >= Len(job.map) THEN Idle
                       ELSE [j EXCEPT !.op = "gather", !.todo = 0..(Stop(j) - start - 1),
                                      !.buf = [i \in {} |-> 0]]
             /\ UNCHANGED <<blocks, size, abs>>
DNext == \/ \E n \in 0..MaxN : Resize(n)
         \/ \E map \in Maps(size), batch \in 1..MaxBatch : StartCompact(map, batch)
         \/ Gather \/ ToScatter \/ Scatter \/ NextBatch
DSpec == DInit /\ [][DNext]_dvars

\* Whatever was set and survived is where the rules say.
Agrees == job = Idle => /\ Len(abs) = size /\ Cap(blocks) >= size
                        /\ \A i \in 1..size : abs[i] /= 0 => At(i - 1) = abs[i]
=============================================================================
