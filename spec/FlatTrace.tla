----------------------------- MODULE FlatTrace -----------------------------
(***************************************************************************)
(* Recorded exhaustive searches and uses of the bounded collections.       *)
(***************************************************************************)
EXTENDS Common, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE

F == INSTANCE Flat WITH MaxN <- 0, MaxQ <- 0, MaxK <- 0, MaxD <- 0, Threads <- {}, n <- 0,
        nq <- 0, k <- 0, db <- 0, qb <- 0, d <- 0, admitted <- {}, start <- 0, next <- 0,
        work <- 0, heap <- 0, done <- TRUE

Sqrt(x) == CHOOSE r \in 0..x : r * r = x
\* Cosine similarity, four-fold; the driver only uses vectors for which that is an integer.
Cos4(a, b) == (4 * IP(a, b)) \div (Sqrt(IP(a, a)) * Sqrt(IP(b, b)))
\* div rounds down, and the quotient is exact.
D(kind, a, b) == IF kind = "COS" THEN Cos4(a, b) ELSE Dist(kind, a, b)
Order(kind) == IF kind = "L2" THEN "L2" ELSE "IP"

\* A search: the rows for every query, for a filter.
DoSearch(e, vecs, queries) ==
    LET n == Len(vecs)
        admitted == TLCEval({x \in 0..(n - 1) : e.filter = <<>> \/ e.filter[x + 1]})
        dist == TLCEval([q \in 1..Len(queries) |->
                            [x \in admitted |-> D(e.kind, queries[q], vecs[x + 1])]])
    IN /\ Why("no error", ~e.err)
       /\ Why("one row per query", Len(e.ids) = Len(queries) /\ Len(e.ds) = Len(queries))
       /\ \A q \in 1..Len(queries) :
            /\ Why("the nearest admitted, in order",
                   F!GoodRow(Order(e.kind), admitted, dist[q], e.k, e.ids[q]))
            /\ Why("true distances",
                   \A j \in 1..e.k : e.ids[q][j] # -1 => e.ds[q][j] = dist[q][e.ids[q][j]])
            \* A missing result is farther than anything.
            /\ Why("missing marked",
                   \A j \in 1..e.k : e.ids[q][j] = -1 =>
                       e.ds[q][j] = IF e.kind = "L2" THEN 2000000002 ELSE -2000000002)
\* The batch sizes asked for are the ones in force, and searching leaves them alone.
DoFlat(e) ==
    /\ \A i \in 1..Len(e.runs) :
         /\ DoSearch([kind |-> e.kind] @@ e.runs[i], e.vecs, e.queries)
         /\ Why("settings kept", e.runs[i].after = e.runs[i].before)
    /\ Why("size and dimensions", e.size = Len(e.vecs) /\ e.dims = e.d)

\* A collection of k slots per batch entry: whatever was inserted since prepared.
DoBulk(e) ==
    \A b \in 1..Len(e.rows) :
        LET mine == {i \in 1..Len(e.ins) : e.ins[i][1] = b - 1}
            ids == {e.ins[i][2] : i \in mine}
            dist == TLCEval([x \in ids |-> e.ins[CHOOSE i \in mine : e.ins[i][2] = x][3]])
        IN /\ Why("size", Len(e.rows) = e.batch /\ Len(e.rows[b]) = e.k)
           /\ Why("the best inserted",
                  F!GoodRow(e.kind, ids, dist, e.k, [j \in 1..e.k |-> e.rows[b][j][1]]))
           /\ Why("with their distances",
                  \A j \in 1..e.k : e.rows[b][j][1] # -1 =>
                      e.rows[b][j][2] = dist[e.rows[b][j][1]])

Step(e) == CASE e.e = "flat" -> DoFlat(e)
             [] e.e = "bulk" -> DoBulk(e)
Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1 /\ Step(Trace[l + 1]) = TRUE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
