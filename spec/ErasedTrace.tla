----------------------------- MODULE ErasedTrace -----------------------------
(***************************************************************************)
(* Type-erased indexes.  State: the settings in force and the ids present, *)
(* as the calls so far define them.  Every call on the erased index must   *)
(* show that state afterwards, and end like the same call on the index it  *)
(* wraps (recorded next to it): same answer, or an error on both sides.    *)
(* A query type that is not offered is refused and changes nothing.        *)
(***************************************************************************)
EXTENDS Common, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, kind, st
vars == <<l, kind, st>>

Ev == Trace[l + 1]
Req(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE

Params == {"static", "dynamic"}

\* What the erased interface shows in state s.
Shown(s, x) ==
    /\ Req("size", x.size = s.size)
    /\ Req("dimensions", x.dims = s.dims)
    /\ Req("threads", x.threads = s.threads /\ x.change)
    /\ Req("search parameters", x.params = s.params)
    /\ Req("query types", x.types = s.types)
    /\ kind' \in Params =>
          /\ Req("alpha", x.alpha = s.alpha)
          /\ Req("construction window", x.window = s.window)
          /\ Req("search window", x.w = s.params[1])
    /\ kind' = "static" =>
          /\ Req("candidates", x.cand = s.cand)
          /\ Req("visited set", x.visited = (s.params[3] = 1))
    /\ kind' = "dynamic" =>
          /\ Req("ids listed", NoDup(x.listed) /\ Range(x.listed) = s.ids)
          /\ Req("ids found", Range(x.there) = s.ids)

Step(s) == st' = s /\ l' = l + 1 /\ Shown(s, Ev.s)

Agree == Req("as the index it wraps", Ev.eok = Ev.dok /\ Ev.erased = Ev.direct)

Begin ==
    /\ Ev.e = "begin"
    /\ kind' = Ev.kind
    /\ Step([size |-> Ev.size, dims |-> Ev.dims, threads |-> Ev.threads, params |-> Ev.params,
             types |-> Ev.types, alpha |-> Ev.alpha, window |-> Ev.window, cand |-> Ev.cand,
             ids |-> Range(Ev.ids)])

Search ==
    /\ Ev.e = "search"
    /\ UNCHANGED kind
    /\ Req("offered types only", Ev.eok = (Ev.type \in Range(st.types)))
    /\ Agree
    /\ Step(st)

Reconstruct == Ev.e = "reconstruct" /\ UNCHANGED kind /\ Agree /\ Step(st)

Calibrate ==
    /\ Ev.e = "calibrate"
    /\ UNCHANGED kind
    /\ Agree
    /\ Step([st EXCEPT !.params = IF Ev.eok THEN Ev.erased ELSE @])

Set ==
    /\ Ev.e = "set"
    /\ UNCHANGED kind
    /\ Step(CASE Ev.what = "alpha" -> [st EXCEPT !.alpha = Ev.text]
              [] Ev.what = "window" -> [st EXCEPT !.window = Ev.n]
              [] Ev.what = "cand" -> [st EXCEPT !.cand = Ev.n]
              [] Ev.what = "w" -> [st EXCEPT !.params = [@ EXCEPT ![1] = Ev.n, ![2] = Ev.n]]
              [] Ev.what = "visited" -> [st EXCEPT !.params = [@ EXCEPT ![3] = Ev.n]]
              [] Ev.what = "threads" -> [st EXCEPT !.threads = Max(Ev.n, 1)]
              [] Ev.what = "params" -> [st EXCEPT !.params = Ev.direct]
              \* Only what affects performance may differ from before.
              [] Ev.what = "reset" -> [st EXCEPT !.params =
                                          IF SubSeq(Ev.direct, 1, 3) = SubSeq(@, 1, 3)
                                          THEN Ev.direct ELSE @])

Change ==
    /\ Ev.e = "change"
    /\ UNCHANGED kind
    /\ Agree
    /\ LET ids == Range(Ev.ids)
           now == IF ~Ev.eok THEN st.ids
                  ELSE IF Ev.what = "add" THEN st.ids \union ids
                  ELSE IF Ev.what = "delete" THEN st.ids \ ids
                  ELSE st.ids
       IN /\ Ev.what = "add" => Req("accepted", Ev.eok = (NoDup(Ev.ids) /\ ids \cap st.ids = {}))
          /\ Ev.what = "delete" => Req("accepted", Ev.eok = (ids \subseteq st.ids))
          /\ Ev.what \in {"consolidate", "compact"} => Req("accepted", Ev.eok)
          /\ Step([st EXCEPT !.ids = now, !.size = Cardinality(now)])

\* Saved by one side and loaded by the other: only the number of threads is chosen anew.
Reload ==
    /\ Ev.e = "reload"
    /\ UNCHANGED kind
    /\ Req("loads", Ev.ok)
    /\ Step([st EXCEPT !.threads = Ev.threads])

Init == l = 0 /\ kind = "" /\ st = [size |-> 0]
Next ==
    /\ l < Len(Trace)
    /\ \/ Begin \/ Search \/ Reconstruct \/ Calibrate \/ Set \/ Change \/ Reload
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
