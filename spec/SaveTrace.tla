----------------------------- MODULE SaveTrace -----------------------------
(***************************************************************************)
(* Recorded histories of saving, loading, moving, spoiling and interrupted *)
(* saves.  A place on disk holds nothing readable, or exactly one content, *)
(* which some loaders accept; after an interruption it is not known which  *)
(* of the old content, the new content and nothing it holds, until a load  *)
(* tells.                                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, at
vars == <<l, at>>
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE

Nothing == [accepts |-> <<>>, content |-> ""]
Full(accepts, content) == [accepts |-> accepts, content |-> content]
Names(s) == {s[i] : i \in 1..Len(s)}
Held(p) == IF p \in DOMAIN at THEN at[p] ELSE {Nothing}
Set(p, s) == at' = (p :> s) @@ at

\* What loading `x` as `as` must do.
Reads(x, as) == as \in Names(x.accepts)
Fits(x, e) == IF e.ok THEN Reads(x, e.as) /\ x.content = e.content ELSE ~Reads(x, e.as)

Begin(e) == at' = [x \in {} |-> {}]

Save(e) ==
    /\ Why("a save that nothing hinders succeeds", e.ok)
    /\ Why("saving does not alter the object", e.before = e.after)
    /\ Set(e.path, {Full(e.accepts, e.whole)})

Load(e) ==
    LET possible == Held(e.path)
        left == {x \in possible : Fits(x, e)}
    IN /\ Why("loading ends in an object or an error", ~e.died)
       /\ Why(IF e.ok
              THEN IF \E x \in possible : Reads(x, e.as) THEN "the content saved is the content loaded"
                   ELSE "what cannot be read faithfully is refused"
              ELSE "what was saved can be loaded",
              left # {})
       /\ Set(e.path, left)

\* A save cut short: by the end of the process, or by a refused write.
Interrupted(e) ==
    LET new == Full(e.accepts, e.whole)
    IN /\ Why("a refused write ends in an error, not in the end of the process", e.status # "died")
       /\ Set(e.path, IF e.status = "returned" THEN {new} ELSE Held(e.path) \cup {new, Nothing})

Lost(e) == Why("a save that nothing hinders succeeds", FALSE) /\ UNCHANGED at

Move(e) == at' = (e.to :> Held(e.path)) @@ (e.path :> {Nothing}) @@ at
Copy(e) == at' = (e.to :> Held(e.path)) @@ at

Step(e) == CASE e.e = "begin" -> Begin(e)
             [] e.e = "save" -> Save(e)
             [] e.e = "load" -> Load(e)
             [] e.e = "interrupted" -> Interrupted(e)
             [] e.e = "lost" -> Lost(e)
             [] e.e = "move" -> Move(e)
             [] e.e = "copy" -> Copy(e)
             [] e.e = "gone" -> Set(e.path, {Nothing})
             [] e.e = "spoiled" -> Set(e.path, {Nothing})
             [] e.e = "noise" -> UNCHANGED at
Init == l = 0 /\ at = [x \in {} |-> {}]
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
