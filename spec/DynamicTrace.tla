----------------------------- MODULE DynamicTrace -----------------------------
(***************************************************************************)
(* Checks histories recorded from the real MutableVamanaIndex against the  *)
(* rules of DynamicRules.  IOEnv.TRACE is the recording, IOEnv.CHECK the   *)
(* property whose conditions are in force (or ALL).  An event that the     *)
(* rules do not allow disables Next, and the postcondition then fails.     *)
(***************************************************************************)
EXTENDS DynamicRules, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Property == IOEnv.CHECK

VARIABLES l,        \* events accepted so far
          live,     \* id -> vector: what the calls so far define
          S,        \* state of the index (see DynamicRules)
          cfg,      \* fixed settings of this history
          seen      \* last snapshot
vars == <<l, live, S, cfg, seen>>

Req(p, name, cond) ==
    IF Property = p \/ Property = "ALL"
    THEN (IF cond THEN TRUE ELSE PrintT(<<"WHY", p, name, l + 1>>) /\ FALSE)
    ELSE TRUE
\* Needed for the rest of the specification to make sense: in force for every property.
Shape(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", "shape", name, l + 1>>) /\ FALSE

(***************************************************************************)
(* Snapshots.                                                              *)
(***************************************************************************)
ShapeOK(s) ==
    /\ Shape("parallel lists", Len(s.slots) = Len(s.ids) /\ Len(s.back) = Len(s.ids)
                               /\ Len(s.vecs) = Len(s.ids) /\ Len(s.recs) = Len(s.ids))
    /\ Shape("slots exist", Range(s.slots) \subseteq 0..(s.n - 1))
    /\ Shape("graph size", s.gn = s.n /\ Len(s.g) = s.n /\ Len(s.isdel) = s.n)
    /\ Shape("slots distinct", NoDup(s.slots) /\ NoDup(s.ids))
    /\ Shape("entry point exists", s.n > 0 => s.ep \in 0..(s.n - 1))

\* The state a snapshot shows; which non-live slots are soft-deleted follows from the history.
StateOf(s, tomb) ==
    [n |-> s.n,
     st |-> [x \in 0..(s.n - 1) |-> IF x \in Range(s.slots) THEN "V"
                                   ELSE IF x \in tomb THEN "D" ELSE "E"],
     id |-> [x \in 0..(s.n - 1) |-> IF x \in Range(s.slots)
                                    THEN s.ids[PosOf(s.slots, x)] ELSE "-"],
     g |-> [x \in 0..(s.n - 1) |-> Range(s.g[x + 1])],
     ep |-> s.ep]

\* What holds of every snapshot, given the content the calls define.
IdsOK(s, content) ==
    /\ Req("C01", "id listing", Range(s.ids) = DOMAIN content)
    /\ Req("C01", "size", s.size = Cardinality(DOMAIN content))
    /\ Req("C01", "membership", Range(s.has) = DOMAIN content)
    /\ Req("C01", "slots map back to their ids", s.back = s.ids)
    /\ Req("C01", "exactly the live slots are not deleted",
            \A x \in 0..(s.n - 1) : s.isdel[x + 1] = (x \notin Range(s.slots)))
    /\ Req("C01", "content by id", \A i \in 1..Len(s.ids) : s.vecs[i] = content[s.ids[i]])

ContentOK(s, content) ==
    /\ Req("C03", "vector read back by id",
            \A i \in 1..Len(s.ids) :
                s.ids[i] \in DOMAIN content => s.vecs[i] = content[s.ids[i]])
    /\ Req("C03", "vector reconstructed by id",
            \A i \in 1..Len(s.ids) :
                s.ids[i] \in DOMAIN content => s.recs[i] = content[s.ids[i]])
    /\ Req("C03", "no live id lost its vector", DOMAIN content \subseteq Range(s.ids))

ListsOK(s, T) ==
    /\ Req("C04", "degree, self-edges, targets", GraphOK(T, cfg'.deg))
    /\ Req("C04", "no duplicate edges",
            \A x \in Routed(T) : NoDup(s.g[x + 1]))
    /\ Req("C04", "entry point routes", EntryOK(T))
    /\ Req("C04", "the index's own invariant check", s.dbg)

ProbesSound(s, content) ==
    Req("C02", "probe answers",
        \A i \in 1..Len(s.probe) :
            AnswerSound(cfg'.dist, content, cfg'.probeq[i], s.probe[i].ids, s.probe[i].ds))

Snapshot(s, content, T) ==
    /\ IdsOK(s, content)
    /\ ContentOK(s, content)
    /\ ListsOK(s, T)
    /\ ProbesSound(s, content)
    /\ Req("C03", "dimensions", s.dims = cfg'.dims)


Advance(s, content, T) ==
    /\ l' = l + 1
    /\ live' = content
    /\ S' = T
    /\ seen' = s
    /\ Snapshot(s, content, T)

(***************************************************************************)
(* Events.                                                                 *)
(***************************************************************************)
Ev == Trace[l + 1]
Keys(e) == Range(e.ids)
Bind(e) == [x \in Keys(e) |-> e.vecs[PosOf(e.ids, x)]]

Build ==
    /\ Ev.e = "build"
    /\ ShapeOK(Ev.s)
    /\ cfg' = [deg |-> Ev.deg, dist |-> Ev.dist, dims |-> Ev.dims, probeq |-> Ev.probeq]
    /\ LET T == StateOf(Ev.s, {}) IN
       /\ Req("C01", "slots", SlotsOK(T) /\ T.n = Len(Ev.ids))
       /\ Advance(Ev.s, Bind(Ev), T)

AddExpected ==
    /\ NoDup(Ev.ids)
    /\ Keys(Ev) \cap DOMAIN live = {}
    /\ Len(Ev.ids) = Len(Ev.vecs)

Unchanged(s) ==
    /\ Req("C01", "rejected call left the ids and contents alone",
            /\ Range(s.ids) = Range(seen.ids) /\ s.size = seen.size /\ Range(s.has) = Range(seen.has)
            /\ \A i \in 1..Len(s.ids) : s.ids[i] \in DOMAIN live => s.vecs[i] = live[s.ids[i]])

Add ==
    /\ Ev.e = "add"
    /\ ShapeOK(Ev.s)
    /\ UNCHANGED cfg
    /\ Req("C01", "add accepted exactly when the ids are fresh and distinct", Ev.ok = AddExpected)
    /\ LET ok == Ev.ok /\ Len(Ev.ids) = Len(Ev.vecs)
           content == IF ok
                      THEN [x \in DOMAIN live \union Keys(Ev) |->
                               IF x \in Keys(Ev) THEN Bind(Ev)[x] ELSE live[x]]
                      ELSE live
           T == StateOf(Ev.s, Tomb(S))
       IN /\ IF ok
             THEN /\ Req("C01", "slots of the new vectors", AddSlots(S, T, Keys(Ev)))
                  /\ Req("C01", "slots returned by add",
                         Len(Ev.ret) = Len(Ev.ids) /\
                         \A i \in 1..Len(Ev.ids) :
                            Ev.ids[i] \in Ids(T) => Ev.ret[i] = SlotOf(T, Ev.ids[i]))
                  /\ Req("C04", "edges after add", AddGraph(S, T, Keys(Ev)))
             ELSE /\ Unchanged(Ev.s)
                  /\ Req("C04", "edges after rejected add", T.n >= S.n /\ T.ep = S.ep)
          /\ Advance(Ev.s, content, T)

Delete ==
    /\ Ev.e = "del"
    /\ ShapeOK(Ev.s)
    /\ UNCHANGED cfg
    /\ Req("C01", "delete accepted exactly when all ids are live", Ev.ok = (Keys(Ev) \subseteq DOMAIN live))
    /\ LET content == IF Ev.ok THEN [x \in DOMAIN live \ Keys(Ev) |-> live[x]] ELSE live
           gone == IF Ev.ok THEN {SlotOf(S, x) : x \in Keys(Ev) \cap Ids(S)} ELSE {}
           T == StateOf(Ev.s, Tomb(S) \union gone)
       IN /\ IF Ev.ok
             THEN /\ Req("C01", "slots after delete", DeleteSlots(S, T, Keys(Ev)))
                  /\ Req("C04", "delete leaves the graph", SameGraph(S, T))
             ELSE /\ Unchanged(Ev.s)
                  /\ Req("C04", "rejected delete leaves the graph", SameGraph(S, T))
          /\ Advance(Ev.s, content, T)

Consolidate ==
    /\ Ev.e = "consolidate"
    /\ ShapeOK(Ev.s)
    /\ UNCHANGED cfg
    /\ LET T == StateOf(Ev.s, IF Live(S) = {} THEN {S.ep} ELSE {})
       IN /\ Req("C01", "slots after consolidate", ConsolidateSlots(S, T))
          /\ Req("C05", "consolidate keeps ids and slots", ConsolidateSlots(S, T))
          /\ Req("C05", "consolidate keeps vectors",
                 \A i \in 1..Len(Ev.s.ids) : Ev.s.ids[i] \in DOMAIN live => Ev.s.vecs[i] = live[Ev.s.ids[i]])
          /\ Req("C05", "consolidate keeps parameters", Ev.s.par = seen.par)
          /\ Req("C04", "consolidation", T.n = S.n /\ ConsolidateGraph(S, T, seen.maxcand))
          /\ Req("C05", "nothing to consolidate, same answers",
                 Tomb(S) = {} => Ev.s.probe = seen.probe)
          /\ Advance(Ev.s, live, T)

Compact ==
    /\ Ev.e = "compact"
    /\ ShapeOK(Ev.s)
    /\ UNCHANGED cfg
    /\ LET pending == Tomb(S) # {}
           \* Soft-deleted slots survive: which ones, CompactGraph tells.
           T == StateOf(Ev.s, (0..(Ev.s.n - 1)) \ Range(Ev.s.slots))
       IN /\ Req("C01", "slots after compact", CompactSlots(S, T))
          /\ Req("C04", "slots after compact", CompactSlots(S, T))
          /\ Req("C05", "compact keeps the graph", CompactSlots(S, T) /\ CompactGraph(S, T))
          /\ Req("C05", "compact keeps answers", Ev.s.probe = seen.probe)
          /\ Req("C05", "compact keeps parameters", Ev.s.par = seen.par)
          /\ Req("C05", "compact keeps vectors",
                 \A i \in 1..Len(Ev.s.ids) : Ev.s.ids[i] \in DOMAIN live => Ev.s.vecs[i] = live[Ev.s.ids[i]])
          /\ Advance(Ev.s, live, T)

Save ==
    /\ Ev.e = "save"
    /\ ShapeOK(Ev.s)
    /\ UNCHANGED cfg
    /\ Req("C05", "save succeeds unless the index is empty", Ev.ok = (Live(S) # {}))
    /\ LET T == StateOf(Ev.s, IF Ev.ok THEN {} ELSE Tomb(S))
       IN /\ IF Ev.ok
             THEN /\ Req("C01", "slots after save", SaveSlots(S, T))
                  /\ Req("C04", "graph after save", SaveSlots(S, T) /\ SaveGraph(S, T, seen.maxcand))
                  /\ Req("C05", "save keeps the index consistent",
                         SaveSlots(S, T) /\ SaveGraph(S, T, seen.maxcand))
             ELSE Req("C05", "refused save changes nothing", Ev.s = seen)
          /\ Req("C05", "save keeps parameters", Ev.s.par = seen.par)
          /\ Req("C05", "save keeps vectors",
                 \A i \in 1..Len(Ev.s.ids) : Ev.s.ids[i] \in DOMAIN live => Ev.s.vecs[i] = live[Ev.s.ids[i]])
          /\ Req("C05", "save of a consolidated index keeps answers",
                 Tomb(S) = {} => Ev.s.probe = seen.probe)
          /\ Advance(Ev.s, live, T)

Reload ==
    /\ Ev.e = "reload"
    /\ Req("C05", "a saved index loads", Ev.ok)
    /\ ShapeOK(Ev.s)
    /\ UNCHANGED cfg
    /\ LET T == StateOf(Ev.s, {})
       IN /\ Req("C05", "reload keeps ids and graph", SaveSlots(S, T) /\ SameUpToSlots(S, T))
          /\ Req("C05", "reload keeps vectors",
                 \A i \in 1..Len(Ev.s.ids) : Ev.s.ids[i] \in DOMAIN live => Ev.s.vecs[i] = live[Ev.s.ids[i]])
          /\ Req("C05", "reload keeps answers", Ev.s.probe = seen.probe)
          /\ Req("C05", "reload keeps parameters", Ev.s.par = seen.par)
          /\ Req("C05", "reload keeps the entry point and degree", Ev.s.deg = seen.deg)
          /\ Advance(Ev.s, live, T)

\* Changing parameters touches nothing else.
Params ==
    /\ Ev.e = "params"
    /\ ShapeOK(Ev.s)
    /\ UNCHANGED cfg
    /\ LET T == StateOf(Ev.s, Tomb(S))
       IN /\ Req("C04", "parameters leave the graph", SameGraph(S, T))
          /\ Advance(Ev.s, live, T)

Search ==
    /\ Ev.e = "search"
    /\ Req("C02", "result count", Len(Ev.ids) = Ev.k /\ Len(Ev.ds) = Ev.k)
    /\ Req("C02", "answer", AnswerSound(cfg.dist, live, Ev.q, Ev.ids, Ev.ds))
    /\ Req("C02", "exact when the window covers the index",
           IF Ev.ex THEN AnswerExact(cfg.dist, live, Ev.q, DOMAIN live, Ev.k, Ev.ids, Ev.ds)
           ELSE Ev.w >= S.n =>
                AnswerExact(cfg.dist, live, Ev.q, ReachableIds(S) \cap DOMAIN live, Ev.k, Ev.ids, Ev.ds))
    /\ l' = l + 1
    /\ UNCHANGED <<live, S, cfg, seen>>

Init ==
    /\ l = 0
    /\ live = <<>>
    /\ S = [n |-> 0, st |-> <<>>, id |-> <<>>, g |-> <<>>, ep |-> 0]
    /\ cfg = [deg |-> 0, dist |-> "L2", dims |-> 0, probeq |-> <<>>]
    /\ seen = [n |-> 0]

Next ==
    /\ l < Len(Trace)
    /\ \/ Build \/ Add \/ Delete \/ Consolidate \/ Compact \/ Save \/ Reload \/ Params \/ Search

Spec == Init /\ [][Next]_vars

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
