----------------------------- MODULE Calibrate -----------------------------
(***************************************************************************)
(* Calibration of the search parameters (index/vamana/calibrate.h).        *)
(*                                                                         *)
(* A configuration of the search buffer is a window and a capacity no      *)
(* smaller than it.  Calibration gets a recall measure that never falls    *)
(* when window or capacity grow.  The first part of the module says what   *)
(* it may measure and what it may return; the second is the procedure as a *)
(* state machine, checked against the first over every monotone measure on *)
(* a small range of windows and capacities.                                *)
(***************************************************************************)
EXTENDS Common

Cfg(w, c) == [w |-> w, c |-> c]

\* A problem p: wu and cu bound window and capacity, k neighbours are wanted, mode says what to
\* optimise, rerank whether the data reranks, init is the configuration before, target the goal.
TuneUp(p) == p.mode = "ROITuneUp"
BaseCap(p, w) == IF TuneUp(p) THEN Max(w, p.init.c) ELSE w
Lower(p) == IF TuneUp(p) /\ p.init.c >= p.k THEN 1 ELSE p.k
Sound(p) == p.k >= 1 /\ p.k <= p.wu /\ p.k <= p.cu /\ p.init.w <= p.init.c

\* What may be measured.
MayMeasure(p, f) ==
    /\ p.mode # "Disable"
    /\ f.w >= 1 /\ f.w <= p.wu /\ f.c >= f.w /\ f.c >= p.k
    /\ \/ f.w >= Lower(p) /\ f.c = BaseCap(p, f.w)
       \/ p.mode = "All" /\ ~p.rerank /\ f.c = p.k
       \/ p.mode = "All" /\ p.rerank /\ f.c <= p.cu

\* R(f): the recall of configuration f.
Meeting(p, R(_)) == {w \in Lower(p)..p.wu : R(Cfg(w, BaseCap(p, w))) >= p.target}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
FirstWindow(p, R(_)) ==
    IF Meeting(p, R) = {} THEN p.wu ELSE Least(Meeting(p, R))

\* What may be returned, as far as the search buffer goes.
GoodConfig(p, R(_), f) ==
    LET w0 == FirstWindow(p, R)
        met == Meeting(p, R) # {}
        f0 == Cfg(w0, BaseCap(p, w0))
        \* The split buffer is tried when a smaller window than the largest one already met
        \* the target.
        split == p.mode = "All" /\ met /\ w0 < p.wu /\ (p.rerank \/ w0 = p.k)
    IN IF p.mode = "Disable" THEN f = p.init
       ELSE IF ~split THEN f = f0
       ELSE IF p.rerank THEN R(f) >= p.target /\ (f = f0 \/ (f.w < w0 /\ MayMeasure(p, f)))
       ELSE f.c = p.k /\ f.w \in 1..p.k /\ R(f) >= p.target
            /\ \A w \in 1..(f.w - 1) : R(Cfg(w, p.k)) < p.target
\* Prefetching is tuned only when asked to, and not once the target was missed.
MayTune(p, R(_)) ==
    p.train /\ (p.mode = "Disable" \/ Meeting(p, R) # {})

-----------------------------------------------------------------------------
(* The procedure. *)
CONSTANTS MaxW, MaxC, Modes
VARIABLES p, up, phase, lo, len, cur, best, sws, seen, tuned
vars == <<p, up, phase, lo, len, cur, best, sws, seen, tuned>>
\* Only whether the target is met matters: up is the set of configurations that meet it.
Cells == {f \in [w : 1..Max(MaxW, MaxC), c : 1..Max(MaxW, MaxC)] : f.w <= f.c}
UpClosed(S) == \A a \in S : \A b \in Cells : (b.w >= a.w /\ b.c >= a.c) => b \in S
R(f) == IF f \in up THEN 1 ELSE 0
Problems == {q \in [wu : 1..MaxW, cu : 1..MaxC, k : 1..MaxW, mode : Modes, rerank : BOOLEAN,
                    init : Cells, target : {1}, train : {TRUE}] :
                Sound(q) /\ (~TuneUp(q) => q.init = Cfg(1, 1))}
\* Up-sets are generated by their minimal elements: one threshold capacity per window.
UpSets == {S \in {{f \in Cells : f.c >= t[f.w]} :
                     t \in [1..Max(MaxW, MaxC) -> 1..(Max(MaxW, MaxC) + 1)]} : UpClosed(S)}

Init == /\ p \in Problems /\ up \in UpSets
        /\ phase = IF p.mode = "Disable" THEN "prefetch" ELSE "base"
        /\ lo = Lower(p) /\ len = p.wu - Lower(p)
        /\ cur = p.init /\ best = FALSE /\ sws = 0 /\ seen = {} /\ tuned = FALSE
\* One step of a binary search: f is what is measured at a position.
Search(f(_), next) ==
    IF len > 0
    THEN LET h == len \div 2 IN LET m == f(lo + h) IN
         /\ seen' = seen \union {m}
         /\ best' = (best \/ m \in up)
         /\ IF m \in up THEN len' = h /\ lo' = lo
            ELSE lo' = lo + h + 1 /\ len' = len - h - 1
         /\ UNCHANGED <<p, up, phase, cur, sws, tuned>>
    ELSE next
BaseCfg(w) == Cfg(w, BaseCap(p, w))
Base == /\ phase = "base"
        /\ Search(BaseCfg,
              /\ cur' = BaseCfg(lo)
              /\ IF ~best THEN phase' = "done" /\ UNCHANGED <<lo, len, sws>>
                 ELSE IF p.mode # "All" \/ ~(lo = p.k \/ p.rerank)
                 THEN phase' = "prefetch" /\ UNCHANGED <<lo, len, sws>>
                 ELSE IF ~p.rerank
                 THEN phase' = "narrow" /\ lo' = 1 /\ len' = p.k - 1 /\ UNCHANGED sws
                 ELSE phase' = "try" /\ sws' = Min(lo, p.cu + 1) /\ UNCHANGED <<lo, len>>
              /\ UNCHANGED <<p, up, best, seen, tuned>>)
NarrowCfg(w) == Cfg(w, p.k)
Narrow == /\ phase = "narrow"
          /\ Search(NarrowCfg, /\ cur' = Cfg(lo, p.k) /\ phase' = "prefetch"
                               /\ UNCHANGED <<p, up, lo, len, best, sws, seen, tuned>>)
\* With reranking: one smaller window after the other, each first with the largest capacity.
Try == /\ phase = "try"
       /\ IF sws <= 1 THEN phase' = "prefetch" /\ UNCHANGED <<lo, len, sws, seen>>
          ELSE LET f == Cfg(sws - 1, p.cu) IN
               /\ seen' = seen \union {f} /\ sws' = sws - 1
               /\ IF f \notin up THEN phase' = "prefetch" /\ UNCHANGED <<lo, len>>
                  ELSE phase' = "shrink" /\ lo' = Max(sws - 1, p.k)
                       /\ len' = p.cu - Max(sws - 1, p.k)
       /\ UNCHANGED <<p, up, cur, best, tuned>>
ShrinkCfg(c) == Cfg(sws, c)
Shrink == /\ phase = "shrink"
          /\ Search(ShrinkCfg,
                /\ phase' = "try"
                /\ cur' \in {cur, Cfg(sws, lo)}       \* whichever was faster
                /\ UNCHANGED <<p, up, lo, len, best, sws, seen, tuned>>)
Prefetch == phase = "prefetch" /\ phase' = "done" /\ tuned' = TRUE
            /\ UNCHANGED <<p, up, lo, len, cur, best, sws, seen>>
Next == Base \/ Narrow \/ Try \/ Shrink \/ Prefetch
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OnlyAllowed == \A f \in seen : MayMeasure(p, f)
WellFormed == phase # "base" => cur.w <= cur.c
AtEnd == phase = "done" => /\ GoodConfig(p, R, cur)
                           /\ tuned => MayTune(p, R)
                           /\ p.mode # "Disable" /\ Meeting(p, R) # {} => R(cur) = 1
Ends == <>(phase = "done")
=============================================================================
