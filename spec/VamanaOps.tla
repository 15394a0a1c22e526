------------------------------ MODULE VamanaOps ------------------------------
(***************************************************************************)
(* The algorithms of the graph index as functions: best-first traversal,   *)
(* the three pruning rules, graph construction, insertion of a batch and   *)
(* repair after deletions.                                                 *)
(*                                                                         *)
(* A graph is a function from nodes (0-based) to sequences of nodes; data  *)
(* a function from nodes to vectors; kind is "L2" or "IP".  Factors such   *)
(* as alpha are pairs <<numerator, denominator>>.                          *)
(***************************************************************************)
EXTENDS BufferRules

(***************************************************************************)
(* Traversal.                                                              *)
(***************************************************************************)
Cand(id, d, ok) == [id |-> id, d |-> d, vis |-> FALSE, ok |-> ok]

RECURSIVE InsertAll(_, _, _, _, _, _, _)
InsertAll(kind, b, ns, i, dq, okf, cap) ==
    IF i > Len(ns) THEN b
    ELSE InsertAll(kind, Insert(kind, b, Cand(ns[i], dq[ns[i]], okf[ns[i]]), cap),
                   ns, i + 1, dq, okf, cap)

RECURSIVE Traverse(_, _, _, _, _, _, _, _)
Traverse(kind, g, dq, okf, w, cap, b, log) ==
    IF IsDone(b, w) THEN [buf |-> b, log |-> log]
    ELSE LET u == b[NextPos(b, w)].id
             b1 == InsertAll(kind, Visit(b, w), g[u], 1, dq, okf, cap)
         IN Traverse(kind, g, dq, okf, w, cap, b1, Append(log, u))

\* Start from distinct entry points; candidates that do not fit are not considered.
GreedySearch(kind, g, dq, okf, eps, w, cap) ==
    LET start == InsertAll(kind, <<>>, eps, 1, dq, okf, cap)
    IN Traverse(kind, g, dq, okf, w, cap, start, <<>>)

AllOk(g) == [u \in DOMAIN g |-> TRUE]

(***************************************************************************)
(* Pruning.  The pool is a sequence of [id, d] in order of distance to the *)
(* vector self; dist[a][b] the distances between vectors.                  *)
(***************************************************************************)
\* factor * x is better than y
BeatsBy(kind, f, x, y) ==
    IF kind = "L2" THEN f[1] * x < y * f[2] ELSE f[1] * x > y * f[2]

\* One scan over the pool with one factor. out: positions already kept, in order of keeping;
\* drop: positions excluded in this scan.
RECURSIVE Scan(_, _, _, _, _, _, _, _, _)
Scan(kind, f, pool, self, dist, limit, i, out, drop) ==
    IF i > Len(pool) \/ Len(out) >= limit THEN [out |-> out, drop |-> drop]
    ELSE IF i \in drop \/ i \in Range(out) \/ pool[i].id = self
         THEN Scan(kind, f, pool, self, dist, limit, i + 1, out, drop)
         ELSE LET beaten == {t \in (i + 1)..Len(pool) :
                                /\ t \notin Range(out)
                                /\ BeatsBy(kind, f, dist[pool[i].id][pool[t].id], pool[t].d)}
              IN Scan(kind, f, pool, self, dist, limit, i + 1, Append(out, i), drop \union beaten)

IdsAt(pool, ps) == [i \in 1..Len(ps) |-> pool[ps[i]].id]

One == <<1, 1>>

\* Legacy: a single scan with alpha.
PruneLegacy(kind, alpha, pool, self, dist, limit) ==
    IdsAt(pool, Scan(kind, alpha, pool, self, dist, limit, 1, <<>>, {}).out)

\* Iterative: a strict scan, then one with alpha in which what the first one dropped gets
\* another chance.
PruneIterative(kind, alpha, pool, self, dist, limit) ==
    LET first == Scan(kind, One, pool, self, dist, limit, 1, <<>>, {}).out
    IN IF alpha[1] = alpha[2] THEN IdsAt(pool, first)
       ELSE IdsAt(pool, Scan(kind, alpha, pool, self, dist, limit, 1, first, {}).out)

\* Progressive (Euclidean): for every candidate the largest ratio of its distance to the
\* distance from a kept one is remembered, as long as it is not excluded yet; a candidate is
\* excluded while that ratio exceeds the factor of the scan.  Ratios are pairs; <<1, 0>> is
\* infinite and <<-1, 1>> stands for none.
RatioAbove(r, f) == r[1] * f[2] > f[1] * r[2]
RatioLess(a, b) == a[1] * b[2] < b[1] * a[2]
RECURSIVE ScanP(_, _, _, _, _, _, _, _)
ScanP(f, pool, self, dist, limit, i, out, r) ==
    IF i > Len(pool) \/ Len(out) >= limit THEN [out |-> out, r |-> r]
    ELSE IF i \in Range(out) \/ RatioAbove(r[i], f) \/ pool[i].id = self
         THEN ScanP(f, pool, self, dist, limit, i + 1, out, r)
         ELSE LET upd(t) ==
                    IF t <= i \/ t \in Range(out) \/ RatioAbove(r[t], f) THEN r[t]
                    ELSE LET djk == dist[pool[i].id][pool[t].id]
                             new == IF djk = 0 THEN (IF pool[t].d = 0 THEN <<-1, 1>> ELSE <<1, 0>>)
                                    ELSE <<pool[t].d, djk>>
                         IN IF RatioLess(r[t], new) THEN new ELSE r[t]
              IN ScanP(f, pool, self, dist, limit, i + 1, Append(out, i),
                       TLCEval([t \in 1..Len(pool) |-> upd(t)]))
PruneProgressive(alpha, pool, self, dist, limit) ==
    LET first == ScanP(One, pool, self, dist, limit, 1, <<>>, [t \in 1..Len(pool) |-> <<-1, 1>>])
    IN IF alpha[1] = alpha[2] THEN IdsAt(pool, first.out)
       ELSE IdsAt(pool, ScanP(alpha, pool, self, dist, limit, 1, first.out, first.r).out)

\* The strategy the library pairs with each distance.
Prune(kind, alpha, pool, self, dist, limit) ==
    IF kind = "L2" THEN PruneProgressive(alpha, pool, self, dist, limit)
    ELSE PruneIterative(kind, alpha, pool, self, dist, limit)

(***************************************************************************)
(* Construction.  prm: [deg, window, pool, pruneTo, full, alpha].          *)
(***************************************************************************)
DistTable(kind, vec) ==
    IF kind # "COS" \/ Cardinality(DOMAIN vec) > 150 THEN [a \in DOMAIN vec |-> [b \in DOMAIN vec |-> Dist(kind, vec[a], vec[b])]]
    ELSE LET len == TLCEval([a \in DOMAIN vec |-> Length(vec[a])])
         IN [a \in DOMAIN vec |-> [b \in DOMAIN vec |->
                (4 * IP(vec[a], vec[b])) \div (len[a] * len[b])]]

\* Tabulated at once unless there are very many.
Table(kind, vec) ==
    IF Cardinality(DOMAIN vec) > 150 THEN DistTable(kind, vec) ELSE TLCEval(DistTable(kind, vec))

\* Candidates in order of distance, equals by number; at most k of them.
PoolOf(kind, ids, d, k) ==
    LET before(x, y) == Better(kind, d[x], d[y]) \/ (d[x] = d[y] /\ x < y)
        s == Take(SetToSeqBy(ids, before), k)
    IN [i \in 1..Len(s) |-> [id |-> s[i], d |-> d[s[i]]]]

\* The neighbours found for one vertex.
NewList(kind, g, dist, ep, prm, u) ==
    LET r == GreedySearch(kind, g, dist[u], AllOk(g), <<ep>>, prm.window, prm.window)
        met == IF prm.full THEN Range(r.log) \union {ep} ELSE {r.buf[i].id : i \in 1..Len(r.buf)}
        pool == PoolOf(kind, met \union Range(g[u]), dist[u], prm.pool)
    IN Prune(kind, prm.alpha, pool, u, dist, prm.deg)

\* Reverse edges of one vertex: entered where there is room, else kept aside in over.
RECURSIVE Reverse(_, _, _, _, _)
Reverse(st, u, ns, i, deg) ==
    IF i > Len(ns) THEN st
    ELSE LET v == ns[i]
             st1 == IF Len(st.g[v]) < deg
                    THEN IF u \in Range(st.g[v]) \/ u = v THEN st
                         ELSE [st EXCEPT !.g[v] = Append(@, u)]
                    ELSE [st EXCEPT !.over[v] = @ \union {u}]
         IN Reverse(st1, u, ns, i + 1, deg)
RECURSIVE ReverseAll(_, _, _, _)
ReverseAll(st, us, i, deg) ==
    IF i > Len(us) THEN st
    ELSE ReverseAll(Reverse(st, us[i], st.g[us[i]], 1, deg), us, i + 1, deg)

\* One batch: lists for all its vertices from the same graph, then reverse edges.
BatchStep(kind, g, dist, ep, prm, passAlpha, us) ==
    LET lists == TLCEval([u \in Range(us) |-> NewList(kind, g, dist, ep, prm, u)])
        g1 == TLCEval([u \in DOMAIN g |-> IF u \in Range(us) THEN lists[u] ELSE g[u]])
        st == ReverseAll([g |-> g1, over |-> TLCEval([u \in DOMAIN g |-> {}])], us, 1, prm.deg)
    IN TLCEval([u \in DOMAIN g |->
          IF st.over[u] = {} THEN st.g[u]
          ELSE Prune(kind, passAlpha,
                     PoolOf(kind, Range(st.g[u]) \union st.over[u], dist[u], prm.pool),
                     u, dist, prm.pruneTo)])

RECURSIVE Pass(_, _, _, _, _, _, _, _)
Pass(kind, g, dist, ep, prm, passAlpha, us, batch) ==
    IF us = <<>> THEN g
    ELSE LET now == Take(us, batch)
             rest == SubSeq(us, Len(now) + 1, Len(us))
             More(h) == Pass(kind, h, dist, ep, prm, passAlpha, rest, batch)
         IN With(BatchStep(kind, g, dist, ep, prm, passAlpha, now), More)

\* At least forty batches.
BatchSize(n) == (n + 39) \div 40

BuildGraph(kind, vec, ep, prm) ==
    LET n == Cardinality(DOMAIN vec)
        us == [i \in 1..n |-> i - 1]
        g0 == TLCEval([u \in DOMAIN vec |-> <<>>])
        Twice(dist) ==
            LET Again(g1) == Pass(kind, g1, dist, ep, prm, prm.alpha, us, BatchSize(n))
            IN With(Pass(kind, g0, dist, ep, prm, One, us, BatchSize(n)), Again)
    IN With(Table(kind, vec), Twice)

\* Insertion of new vertices (in this order) into an existing graph.
InsertBatch(kind, g, vec, ep, prm, us) ==
    LET Once(dist) == Pass(kind, g, dist, ep, prm, prm.alpha, us, BatchSize(Len(us)))
    IN With(Table(kind, vec), Once)

\* Repair of one vertex with deleted neighbours.  Candidates at equal distance may come in any
\* order, so this is defined only when distances tell them apart.
RepairCands(g, u, dead) ==
    ((Range(g[u]) \ dead) \union UNION {Range(g[v]) : v \in Range(g[u]) \cap dead}) \ dead
TieFree(ids, d) == \A x, y \in ids : x # y => d[x] # d[y]
Repair(kind, g, dist, u, dead, prm) ==
    Prune(kind, prm.alpha, PoolOf(kind, RepairCands(g, u, dead), dist[u], prm.pool), u, dist, prm.pruneTo)
=============================================================================
