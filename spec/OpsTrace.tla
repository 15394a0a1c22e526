------------------------------- MODULE OpsTrace -------------------------------
(***************************************************************************)
(* Recorded calls of the graph-index algorithms, each compared with what   *)
(* VamanaOps computes for the same arguments.                              *)
(***************************************************************************)
EXTENDS VamanaOps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE

\* Sequences indexed from zero, as functions.
Fn(s) == TLCEval([i \in 0..(Len(s) - 1) |-> s[i + 1]])
SetFn(s) == TLCEval([i \in 0..(Len(s) - 1) |-> Range(s[i + 1])])

(***************************************************************************)
(* Pruning (C14).                                                          *)
(***************************************************************************)
PruneExpected(e, dist) ==
    CASE e.strat = "legacy" -> PruneLegacy(e.kind, e.alpha, e.pool, e.self, dist, e.limit)
      [] e.strat = "iterative" -> PruneIterative(e.kind, e.alpha, e.pool, e.self, dist, e.limit)
      [] e.strat = "progressive" -> PruneProgressive(e.alpha, e.pool, e.self, dist, e.limit)

StepPrune(e) ==
    LET dist == TLCEval(DistTable(e.kind, Fn(e.vecs)))
        ids == {e.pool[i].id : i \in 1..Len(e.pool)}
        kept == Range(e.out)
        at == [x \in ids |-> CHOOSE i \in 1..Len(e.pool) : e.pool[i].id = x]
    IN /\ Why("within the limit", Len(e.out) <= e.limit)
       /\ Why("distinct candidates, never itself", NoDup(e.out) /\ kept \subseteq (ids \ {e.self}))
       /\ Why("nearest first",
              (ids \ {e.self}) # {} =>
                LET first == CHOOSE i \in 1..Len(e.pool) :
                                /\ e.pool[i].id # e.self
                                /\ \A j \in 1..(i - 1) : e.pool[j].id = e.self
                IN e.out # <<>> /\ e.out[1] = e.pool[first].id)
       /\ Why("dropped only for a kept one that is nearer by the factor, or for the limit",
              Len(e.out) < e.limit =>
                \A x \in (ids \ {e.self}) \ kept :
                    \E y \in kept :
                        at[y] < at[x] /\ BeatsBy(e.kind, e.alpha, dist[y][x], e.pool[at[x]].d))
       /\ Why("the documented rule", e.out = PruneExpected(e, dist))

(***************************************************************************)
(* Traversal (C12).                                                        *)
(***************************************************************************)
Answer(buf, k) ==
    LET live(x) == x.ok
        b == Take(SelectSeq(buf, live), k)
    IN b

Matches(run, b, k) ==
    /\ Len(run.ids) = k
    /\ \A i \in 1..k :
         IF i <= Len(b) THEN run.ids[i] = b[i].id /\ run.ds[i] = b[i].d
         ELSE run.ids[i] = -1

StepSearch(e) ==
    LET vec == Fn(e.vecs)
        g == Fn(e.g)
        gs == SetFn(e.g)
        dq == TLCEval([u \in DOMAIN vec |-> Dist(e.kind, e.q, vec[u])])
        ok == Fn(e.ok)
        w == IF e.cap < e.k THEN e.k ELSE e.w
        cap == IF e.cap < e.k THEN e.k ELSE e.cap
        r == GreedySearch(e.kind, g, dq, ok, <<e.ep>>, w, cap)
        b == Answer(r.buf, e.k)
        reach == {u \in ReachFrom(gs, {e.ep}) : ok[u]}
        got(run) == {i \in 1..Len(run.ids) : run.ids[i] # -1}
    IN \A x \in 1..Len(e.runs) :
        LET run == e.runs[x] IN
        /\ Why("distinct, in range, true distances, in order",
               /\ \A i \in got(run) : run.ids[i] \in reach /\ run.ds[i] = dq[run.ids[i]]
               /\ \A i, j \in got(run) : i < j => run.ids[i] # run.ids[j] /\ NoWorse(e.kind, run.ds[i], run.ds[j]))
        /\ Why("a window over everything reachable is exact",
               w >= Cardinality(DOMAIN vec) =>
                 [i \in 1..Cardinality(got(run)) |-> run.ds[i]] =
                    Take(SortedDistances(e.kind, reach, dq), e.k))
        /\ Why("the best-first traversal", Matches(run, b, e.k))

(***************************************************************************)
(* The visited filter may forget, but reports as seen only what was seen   *)
(* since it was reset: operations <<0,0,0>> reset, <<1,key,was>> add,      *)
(* <<2,key,is>> ask.                                                       *)
(***************************************************************************)
RECURSIVE FilterFrom(_, _, _)
FilterFrom(ops, i, seen) ==
    IF i > Len(ops) THEN TRUE
    ELSE LET o == ops[i] IN
         CASE o[1] = 0 -> FilterFrom(ops, i + 1, {})
           [] o[1] = 1 -> (o[3] = 1 => o[2] \in seen) /\ FilterFrom(ops, i + 1, TLCEval(seen \union {o[2]}))
           [] o[1] = 2 -> (o[3] = 1 => o[2] \in seen) /\ FilterFrom(ops, i + 1, seen)

StepFilter(e) == Why("the filter reports only what was put in", FilterFrom(e.ops, 1, {}))

StepGreedy(e) ==
    LET vec == Fn(e.vecs)
        g == Fn(e.g)
        dq == TLCEval([u \in DOMAIN vec |-> Dist(e.kind, e.q, vec[u])])
        r == GreedySearch(e.kind, g, dq, AllOk(g), Take(e.eps, e.cap), e.w, e.cap)
    IN /\ Why("visits", e.log = e.eps \o r.log)
       /\ Why("buffer", e.out = [i \in 1..Len(r.buf) |-> r.buf[i].id])
       /\ Why("distances", e.ds = [i \in 1..Len(r.buf) |-> r.buf[i].d])

(***************************************************************************)
(* Construction, insertion, repair (C13, C04).                             *)
(***************************************************************************)
ListsBounded(g, deg) ==
    \A u \in 1..Len(g) :
        /\ Len(g[u]) <= deg
        /\ NoDup(g[u])
        /\ \A v \in Range(g[u]) : v \in 0..(Len(g) - 1) /\ v # u - 1

StepBounds(e) == Why("bounds", Len(e.g) = e.n /\ ListsBounded(e.g, e.deg))

StepBuild(e) ==
    /\ Why("bounds", Len(e.g) = Len(e.vecs) /\ ListsBounded(e.g, e.prm.deg))
    /\ Why("the documented construction",
           e.exact => Fn(e.g) = BuildGraph(e.kind, Fn(e.vecs), e.ep, e.prm))

\* Several threads, many schedules. Without full lists and ties the edges are determined,
\* whatever the order in which they were added.
StepBuilds(e) ==
    /\ Why("bounds", \A i \in 1..Len(e.gs) : Len(e.gs[i]) = Len(e.vecs) /\ ListsBounded(e.gs[i], e.prm.deg))
    /\ Why("every reverse edge is kept, under every schedule",
           e.exact =>
             LET want == BuildGraph(e.kind, Fn(e.vecs), e.ep, e.prm)
                 ws == TLCEval([u \in DOMAIN want |-> Range(want[u])])
             IN \A i \in 1..Len(e.gs) : SetFn(e.gs[i]) = ws)

\* Routing slots only: what an empty slot's list holds does not matter.
StepInsert(e) ==
    LET want == InsertBatch(e.kind, Fn(e.g), Fn(e.vecs), e.ep, e.prm, e.slots)
    IN Why("insertion follows the documented procedure",
           /\ Len(e.after) = Len(e.g)
           /\ \A u \in 1..Len(e.g) : e.empty[u] \/ e.after[u] = want[u - 1])

StepRepair(e) ==
    LET n == Len(e.g)
        g == Fn(e.g)
        dist == Table(e.kind, Fn(e.vecs))
        dead == {u \in 0..(n - 1) : e.dead[u + 1] \/ e.empty[u + 1]}
    IN \A u \in (0..(n - 1)) \ dead :
        LET old == Range(g[u])
            new == e.after[u + 1]
            cands == RepairCands(g, u, dead)
        IN IF old \cap dead = {}
           THEN Why("untouched", new = g[u])
           ELSE /\ Why("derived from its own neighbourhood",
                       Range(new) \subseteq cands \ {u} /\ NoDup(new) /\ Len(new) <= e.prm.deg)
                /\ Why("the documented repair",
                       TieFree(cands, dist[u]) => new = Repair(e.kind, g, dist, u, dead, e.prm))

Step(e) ==
    CASE e.e = "prune" -> StepPrune(e)
      [] e.e = "search" -> StepSearch(e)
      [] e.e = "filter" -> StepFilter(e)
      [] e.e = "greedy" -> StepGreedy(e)
      [] e.e = "build" -> StepBuild(e)
      [] e.e = "builds" -> StepBuilds(e)
      [] e.e = "stuck" -> Why("construction got stuck", FALSE)
      [] e.e = "bounds" -> StepBounds(e)
      [] e.e = "insert" -> StepInsert(e)
      [] e.e = "repair" -> StepRepair(e)

Init == l = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ Step(Trace[l + 1]) = TRUE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
