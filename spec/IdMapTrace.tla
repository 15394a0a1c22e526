----------------------------- MODULE IdMapTrace -----------------------------
(* Recorded histories of the real id map against the rules of IdMap. *)
EXTENDS Common, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m
vars == <<l, m>>
R == INSTANCE IdMap WITH Out <- {}, Inn <- {}, MaxBatch <- 0,
                         e2i <- <<>>, i2e <- <<>>, abs <- {}, call <- <<>>
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE
Swap(s) == {<<p[2], p[1]>> : p \in Range(s)}

\* What was read back shows exactly the map.
Shows(e, map) ==
    /\ Why("one to one", R!OneToOne(map))
    /\ Why("size", e.size = Cardinality(map))
    /\ Why("listing", Range(e.pairs) = map /\ Len(e.pairs) = Cardinality(map))
    /\ Why("external to internal", Range(e.e2i) = map)
    /\ Why("internal to external", Swap(e.i2e) = map /\ Len(e.i2e) = Cardinality(map))
    /\ Why("nothing found for an absent id", e.found = 0)
Becomes(e, map) == LET new == TLCEval(map) IN Shows(e, new) /\ m' = new

Step(e) ==
    CASE e.e = "new" -> Becomes(e, R!Identity(e.first, e.n))
      [] e.e = "insert" ->
            LET ok == R!InsertAllowed(m, e.ext, e.int)
            IN /\ Why("insertion accepted or refused", e.ok = ok)
               /\ Becomes(e, IF ok THEN R!Inserted(m, e.ext, e.int) ELSE m)
      [] e.e = "dele" ->
            LET ok == Range(e.ids) \subseteq R!Exts(m)
            IN /\ Why("deletion accepted or refused", e.ok = ok)
               /\ Becomes(e, IF ok THEN R!WithoutExts(m, e.ids) ELSE m)
      [] e.e = "deli" ->
            LET ok == Range(e.ids) \subseteq R!Ints(m)
            IN /\ Why("deletion accepted or refused", e.ok = ok)
               /\ Becomes(e, IF ok THEN R!WithoutInts(m, e.ids) ELSE m)
      [] e.e = "remap" -> Becomes(e, R!Remapped(m, e.from, e.to))
      [] e.e = "checks" ->
            /\ Why("check of free external ids", e.efree = (Range(e.ext) \cap R!Exts(m) = {}))
            /\ Why("check of existing external ids", e.eexist = (Range(e.ext) \subseteq R!Exts(m)))
            /\ Why("check of free internal ids", e.ifree = (Range(e.int) \cap R!Ints(m) = {}))
            /\ Why("check of existing internal ids", e.iexist = (Range(e.int) \subseteq R!Ints(m)))
            /\ Becomes(e, m)
      [] e.e \in {"saved", "loaded"} -> Becomes(e, m)
Init == l = 0 /\ m = {}
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
