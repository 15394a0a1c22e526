--------------------------- MODULE ContentsTrace ---------------------------
(* Recorded histories of the real datasets and graphs against the rules of Contents. *)
EXTENDS Common, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, dims, deg
vars == <<l, c, dims, deg>>
R == INSTANCE Contents WITH MaxN <- 0, BlockSize <- 1, MaxBatch <- 0,
                            blocks <- <<>>, size <- 0, abs <- <<>>, job <- <<>>
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE

\* A dataset's content as read back; the driver leaves out what nobody has set.
Holds(e, new) ==
    /\ Why("size", e.size = Len(new) /\ e.each = Len(new) /\ e.fits)
    /\ Why("dimensions", e.dims = dims)
    /\ Why("content", \A i \in 1..Len(new) : e.content[i] = new[i])
Data(e, new) == LET n == TLCEval(new) IN Holds(e, n) /\ c' = n /\ UNCHANGED <<dims, deg>>

\* A graph as read back.
Shows(e, new) ==
    /\ Why("vertices", e.n = Len(new) /\ e.max = deg)
    /\ Why("neighbours", \A i \in 1..Len(new) : Range(e.lists[i]) = new[i])
    /\ Why("no duplicate, no self-edge, within the degree",
           \A i \in 1..Len(new) : NoDup(e.lists[i]) /\ (i - 1) \notin new[i] /\ Len(e.lists[i]) <= deg)
    /\ Why("degrees", \A i \in 1..Len(new) : e.degrees[i] = Cardinality(new[i]))
    /\ Why("membership", \A i \in 1..Len(new) : Range(e.has[i]) = new[i])
Graph(e, new) == LET g == TLCEval(new) IN Shows(e, g) /\ c' = g /\ UNCHANGED <<dims, deg>>

Step(e) ==
    CASE e.e = "data" -> /\ dims' = e.d /\ deg' = 0 /\ c' = [i \in 1..e.n |-> R!Unset]
                         /\ Why("size", e.size = e.n /\ e.dims = e.d)
      [] e.e = "set" -> Data(e, [c EXCEPT ![e.i + 1] = e.v])
      [] e.e = "wrongdims" -> Why("a vector of another dimension was taken", ~e.ok) /\ Data(e, c)
      [] e.e = "resize" -> Data(e, R!Resized(c, e.n))
      [] e.e \in {"fit", "copy"} -> Data(e, c)
      [] e.e = "compact" -> Data(e, R!Compacted(c, e.map))
      [] e.e = "equal" -> Why("comparison", e.eq = (e.other = c)) /\ UNCHANGED <<c, dims, deg>>
      [] e.e = "view" ->
            /\ Why("indices of a view checked", e.ok = (\A k \in DOMAIN e.ids : e.ids[k] < Len(c)))
            /\ e.ok => Why("view", /\ e.vsize = Len(e.ids) /\ e.parents = e.ids
                                   /\ \A k \in DOMAIN e.ids : e.got[k] = c[e.ids[k] + 1])
            /\ Data(e, c)
      [] e.e = "graph" -> /\ deg' = e.deg /\ dims' = 0 /\ c' = [i \in 1..e.nodes |-> {}]
                          /\ Why("a new graph has no edges", e.n = e.nodes /\ e.max = e.deg
                                 /\ \A i \in 1..e.n : e.lists[i] = <<>> /\ e.degrees[i] = 0)
      [] e.e = "add" -> LET new == TLCEval(R!EdgeAdded(c, deg, e.src, e.dst))
                        IN /\ Why("degree returned", e.ret = Cardinality(new[e.src + 1]))
                           /\ Graph(e, new)
      [] e.e = "replace" -> Graph(e, [c EXCEPT ![e.src + 1] = Range(Take(e.list, deg))])
      [] e.e = "clear" -> Graph(e, [c EXCEPT ![e.src + 1] = {}])
      [] e.e = "reset" -> Graph(e, [i \in 1..Len(c) |-> {}])
      [] e.e = "nodes" -> Graph(e, [i \in 1..e.m |-> IF i <= Len(c) THEN c[i] ELSE {}])
      [] e.e = "geq" ->
            /\ Why("comparison of graphs", e.eq = (e.other = e.lists))
            /\ Graph(e, c)
Init == l = 0 /\ c = <<>> /\ dims = 0 /\ deg = 0
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
