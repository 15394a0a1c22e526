---------------------------- MODULE ClusterTrace ----------------------------
(***************************************************************************)
(* Recorded clusterings and searches of inverted indexes.                  *)
(***************************************************************************)
EXTENDS ClusterRules, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE
F == INSTANCE Flat WITH MaxN <- 0, MaxQ <- 0, MaxK <- 0, MaxD <- 0, Threads <- {}, n <- 0,
        nq <- 0, k <- 0, db <- 0, qb <- 0, d <- 0, admitted <- {}, start <- 0, next <- 0,
        work <- 0, heap <- 0, done <- TRUE

Fn(s) == TLCEval([i \in 0..(Len(s) - 1) |-> s[i + 1]])
\* A recorded clustering: pairs of a centroid and its leaves, in order of the centroids.
AsFn(rows) == TLCEval([c \in {rows[i][1] : i \in 1..Len(rows)} |->
                          rows[CHOOSE i \in 1..Len(rows) : rows[i][1] = c][2]])
InOrder(kind, seq) ==
    \A i \in 2..Len(seq) : NoWorse(kind, seq[i - 1][2], seq[i][2])
Ascending(s) == \A i \in 2..Len(s) : s[i - 1] < s[i]

(***************************************************************************)
(* Clustering (C17).                                                       *)
(***************************************************************************)
DescribesItself(run, cl, n) ==
    LET leaves == AllLeaves(cl)
        sizes == {Len(cl[c]) : c \in DOMAIN cl}
        order == SetToSeq(DOMAIN cl)
        total == SumSeq([i \in 1..Len(order) |-> Len(cl[order[i]])])
    IN /\ Why("histogram", \A x \in 0..(n - 1) : run.hist[x + 1] = CopiesOf(cl, x))
       /\ Why("packed numbering",
              /\ \A x \in 0..(n - 1) : (run.packed[x + 1] # -1) = (x \in leaves)
              /\ {run.packed[x + 1] : x \in leaves} = 0..(Cardinality(leaves) - 1))
       /\ Why("counts",
              /\ run.size = Cardinality(DOMAIN cl)
              /\ run.total = Cardinality(DOMAIN cl) + total)
       /\ Why("centroids in order", Ascending(run.sorted) /\ Range(run.sorted) = DOMAIN cl)
       /\ Why("complement", Ascending(run.rest)
                            /\ Range(run.rest) = (0..(n - 1)) \ DOMAIN cl)
       /\ Why("statistics",
              DOMAIN cl # {} =>
              /\ run.stats[1] \in sizes /\ \A s \in sizes : run.stats[1] <= s
              /\ run.stats[2] \in sizes /\ \A s \in sizes : run.stats[2] >= s
              /\ run.stats[3] = Cardinality({c \in DOMAIN cl : cl[c] = <<>>})
              /\ run.stats[4] = Cardinality(DOMAIN cl)
              /\ run.stats[5] = total)

DoCluster(e) ==
    LET n == Len(e.vecs)
        cents == Range(e.centroids)
        m == Len(e.centroids)
        dc == TLCEval([a \in cents |-> [b \in cents |->
                          Dist(e.kind, e.vecs[a + 1], e.vecs[b + 1])]])
        others == (0..(n - 1)) \ cents
        near(x) == [i \in 1..Len(e.near[x + 1]) |->
                      <<e.centroids[e.near[x + 1][i][1] + 1], e.near[x + 1][i][2]>>]
        homes == TLCEval([x \in others |->
                    Homes(e.kind, e.eps, e.alpha, e.replicas, near(x), dc)])
        dt == TLCEval([x \in 0..(n - 1) |-> [c \in cents |->
                          Dist(e.kind, e.vecs[x + 1], e.vecs[c + 1])]])
        d(x, c) == dt[x][c]
        \* The clustering before sizes are limited, as sequences in order (ties by id).
        before(c) == SetToSeqBy({x \in others : c \in homes[x]},
                        LAMBDA x, y : Better(e.kind, d(x, c), d(y, c))
                                      \/ (d(x, c) = d(y, c) /\ x < y))
        full == TLCEval([c \in cents |-> LET s == before(c) IN
                            [i \in 1..Len(s) |-> <<s[i], d(s[i], c)>>]])
    IN \A i \in 1..Len(e.runs) :
       LET run == e.runs[i]
           cl == AsFn(run.clusters)
       IN IF run.err
          THEN Why("error only when sizes cannot be met", e.max # 0 /\ MayFail(full, e.max))
          ELSE /\ Why("a cluster per centroid", DOMAIN cl = cents /\ Len(run.clusters) = m)
               /\ Why("every vector somewhere", AllLeaves(cl) = others)
               /\ Why("not twice in a cluster", OnceEach(cl))
               /\ Why("at most the configured number of copies",
                      \A x \in others : CopiesOf(cl, x) <= e.replicas + 1)
               /\ Why("true distances",
                      \A c \in cents : \A j \in 1..Len(cl[c]) : cl[c][j][2] = d(cl[c][j][1], c))
               /\ Why("nearest first", \A c \in cents : InOrder(e.kind, cl[c]))
               /\ Why("the documented assignment",
                      IF e.max = 0
                      THEN \A c \in cents : Range(cl[c]) = Range(full[c])
                      ELSE GoodReduction(full, cl, e.max))
               /\ Why("saved and loaded again", run.equal /\
                      LET again == AsFn(run.again) IN
                      DOMAIN again = cents /\ \A c \in cents : again[c] = cl[c])
               /\ DescribesItself(run, cl, n)
               /\ Why("the same for every batch size and number of threads",
                      \A j \in 1..(i - 1) : e.runs[j].err \/
                          LET other == AsFn(e.runs[j].clusters) IN
                          e.max = 0 => \A c \in cents : Range(other[c]) = Range(cl[c]))

DoReduce(e) ==
    LET old == AsFn(e.before)
        new == AsFn(e.after)
        dry == AsFn(e.dryafter)
        Same(a, b) == DOMAIN a = DOMAIN b /\ \A c \in DOMAIN a : Range(a[c]) = Range(b[c])
                                                                /\ Len(a[c]) = Len(b[c])
        \* In order, with ties either way; the order of ties matters to what goes first, so the
        \* order recorded by the dry run (sorted, otherwise untouched) is taken.
    IN /\ Why("a dry run changes nothing", Same(old, dry))
       /\ Why("a dry run tells the outcome", e.dry = ~e.err)
       /\ IF e.err THEN /\ Why("error only when sizes cannot be met", MayFail(dry, e.limit))
                        /\ Why("no vector is lost", AllLeaves(new) = AllLeaves(old))
          ELSE /\ Why("sizes met, no vector lost, nothing added", GoodReduction(old, new, e.limit))
               /\ Why("result", e.ret)

DoPick(e) ==
    /\ Why("distinct, in range, in order",
           Len(e.ids) = e.k /\ Ascending(e.ids) /\ Range(e.ids) \subseteq 0..(e.n - 1))
    /\ Why("repeatable", e.ids = e.again)

(***************************************************************************)
(* Searching (C18).                                                        *)
(***************************************************************************)
DoInverted(e) ==
    LET cents == e.centroids
        m == Len(cents)
        cl == AsFn(e.clusters)
        g == Fn(e.g)
    IN /\ Why("the centroids are the primary data",
              Len(e.primary) = m /\ \A i \in 1..m : e.primary[i] = e.vecs[cents[i] + 1])
       /\ Why("clusters", DOMAIN cl = Range(cents) /\ AllLeaves(cl) = (0..(Len(e.vecs) - 1)) \ DOMAIN cl)
       /\ \A i \in 1..Len(e.runs) :
          LET run == e.runs[i]
              w == IF run.params[2] = 0 THEN 1 ELSE run.params[1]
              cap == IF run.params[2] = 0 THEN 1 ELSE run.params[2]
          IN /\ Why("no error", ~run.err)
             /\ Why("settings kept", run.after = run.before)
             /\ \A q \in 1..Len(run.queries) :
                LET dv == TLCEval([x \in 0..(Len(e.vecs) - 1) |->
                                      Dist(e.kind, run.queries[q], e.vecs[x + 1])])
                    dq == TLCEval([u \in 0..(m - 1) |-> dv[cents[u + 1]]])
                    found == TLCEval(GreedySearch(e.kind, g, dq, AllOk(g), <<e.ep>>, w, cap).buf)
                    scanned == {cents[found[j].id + 1] : j \in
                                  {j \in 1..Len(found) : Within(e.kind, run.eps, found[1].d, found[j].d)}}
                    pool == TLCEval(scanned \union UNION {Leaves(cl, c) : c \in scanned})
                IN /\ Why("the closest found is searched", cents[found[1].id + 1] \in scanned)
                   /\ Why("the best of the selected clusters",
                          F!GoodRow(e.kind, pool, dv, run.k, run.ids[q]))
                   /\ Why("true distances",
                          \A j \in 1..run.k : run.ids[q][j] # -1 => run.ds[q][j] = dv[run.ids[q][j]])

Step(e) == CASE e.e = "cluster" -> DoCluster(e)
             [] e.e = "reduce" -> DoReduce(e)
             [] e.e = "pick" -> DoPick(e)
             [] e.e = "inverted" -> DoInverted(e)
Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1 /\ Step(Trace[l + 1]) = TRUE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
