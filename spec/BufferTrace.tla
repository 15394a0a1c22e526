----------------------------- MODULE BufferTrace -----------------------------
(***************************************************************************)
(* Every recorded step of a real search buffer is the step of the abstract *)
(* buffer of BufferRules from the same content.                            *)
(***************************************************************************)
EXTENDS BufferRules, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE

\* What must show after a step that leaves the abstract buffer b.
Shows(e, b) ==
    /\ Why("content", e.post = b)
    /\ Why("size", e.size = Len(b))
    /\ Why("live count", e.live = LiveCount(b))
    /\ Why("full", e.full = (LiveCount(b) = e.cap))
    /\ Why("done", e.done = IsDone(b, e.w))

Item(e) == [id |-> e.id, d |-> e.d, vis |-> FALSE, ok |-> e.ok]

StepIns(e) ==
    LET x == Item(e)
        b == Insert(e.cmp, e.pre, x, e.cap)
        pos == InsertPos(e.cmp, e.pre, e.d)
    IN /\ Shows(e, b)
       /\ Why("a skipped candidate changes nothing", e.skip => b = e.pre)
       /\ Why("skip test is used only when full and worse than the last",
              e.skip = (LiveCount(e.pre) = e.cap /\ Better(e.cmp, e.pre[Len(e.pre)].d, e.d)))
       /\ Why("returned position",
              e.ret = IF e.skip THEN Len(e.pre)
                      ELSE IF Has(e.pre, e.id) THEN Len(e.pre) + 1
                      ELSE pos - 1)

StepNext(e) ==
    /\ Why("offered only while not done", ~IsDone(e.pre, e.w))
    /\ LET p == NextPos(e.pre, e.w)
       IN /\ Why("the best unvisited one", e.id = e.pre[p].id /\ e.d = e.pre[p].d)
          /\ Shows(e, Visit(e.pre, e.w))

\* Before sorting, candidates are only collected.
StepPush(e) ==
    LET room == LiveCount(e.pre) < e.cap \/ (e.m /\ ~e.ok)
        b == IF room THEN Append(e.pre, Item(e)) ELSE e.pre
    IN /\ Why("pushed at the end", e.post = b)
       /\ Why("size", e.size = Len(b))
       /\ Why("full", e.full = (LiveCount(b) = e.cap))

Perm(a, b) == /\ Len(a) = Len(b)
              /\ \A x \in Range(a) \union Range(b) :
                    Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})

\* Sorting orders the candidates; deleted ones behind the cap-th live one go. Candidates at
\* the same distance may come in any order.
StepSort(e) ==
    LET b == e.post
        gone == {x \in Range(e.pre) : x \notin Range(b)}
    IN /\ Why("sorted", Sorted(e.cmp, b))
       /\ Why("same candidates", Range(b) \subseteq Range(e.pre) /\ Distinct(b)
                                 /\ Len(b) + Cardinality(gone) = Len(e.pre))
       /\ Why("only deleted ones behind a full buffer go",
              \A x \in gone : ~x.ok /\ LiveCount(e.pre) = e.cap
                              /\ (b # <<>> => NoWorse(e.cmp, b[Len(b)].d, x.d)))
       /\ Why("trimmed", LiveCount(b) = e.cap => b[Len(b)].ok)
       /\ Shows(e, b)

StepClear(e) == Shows(e, <<>>)
StepReconf(e) ==
    /\ Why("configuration", e.cw = e.nw /\ e.cc = e.ncap)
    /\ Why("empty", e.post = <<>> /\ e.size = 0)
StepResize(e) ==
    /\ Why("configuration", e.toW = e.to /\ e.toCap = e.to)
    /\ IF e.m THEN TRUE
       ELSE /\ Why("the best remain", e.post = Take(e.pre, e.to))
            /\ Why("size", e.size = Min(Len(e.pre), e.to))
StepCopy(e) ==
    /\ Why("copy of the configuration", e.cw = e.w /\ e.cc = e.cap /\ e.cv = e.v)
    /\ Why("copy starts empty", e.csize = 0 /\ e.cdone)
    /\ Shows(e, e.pre)
StepCleanup(e) ==
    LET live(x) == x.ok
    IN /\ Why("exactly the live candidates in order", e.post = SelectSeq(e.pre, live))
       /\ Why("size", e.size = LiveCount(e.pre))
\* The visited filter may forget but never invents.
StepEmp(e) ==
    /\ Why("no false positive", e.ret => e.on /\ e.was)
    /\ Why("remembers the last one", e.now = e.on)
StepIsv(e) == Why("no false positive", e.ret => e.on /\ e.was)
StepTog(e) == Why("switch", e.ret = e.on)

\* A chain of n deleted candidates, each leading to the next, with l live ones behind them:
\* every deleted one is passed, and the search goes on to the w-th live one.
StepChain(e) ==
    LET met == Min(e.l, e.w + 1)
        kept == Min(met, e.cap)
    IN /\ Why("ends", e.done)
       /\ Why("passes every deleted candidate", e.steps = e.n + Min(e.l, e.w))
       /\ Why("keeps the live ones", e.left = [i \in 1..kept |-> e.n + i - 1])
       /\ Why("size", e.size = e.n + kept)

Step(e) ==
    CASE e.e = "ins" -> StepIns(e)
      [] e.e = "next" -> StepNext(e)
      [] e.e = "push" -> StepPush(e)
      [] e.e = "sort" -> StepSort(e)
      [] e.e = "clear" -> StepClear(e)
      [] e.e = "reconf" -> StepReconf(e)
      [] e.e = "resize" -> StepResize(e)
      [] e.e = "copy" -> StepCopy(e)
      [] e.e = "cleanup" -> StepCleanup(e)
      [] e.e = "emp" -> StepEmp(e)
      [] e.e = "isv" -> StepIsv(e)
      [] e.e = "chain" -> StepChain(e)
      [] e.e = "tog" -> StepTog(e)

Init == l = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ Step(Trace[l + 1]) = TRUE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
