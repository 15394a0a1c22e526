---------------------------- MODULE SaveProtocol ----------------------------
(***************************************************************************)
(* How something is saved: into one or several directories, each with one  *)
(* auxiliary file, found again by an identifier in its header or by its    *)
(* name, and a configuration that describes the file.  Every file grows in *)
(* pieces.  Between any two steps the process can be ended, or the step    *)
(* refused; and directories can be moved together, or copied.  Whatever    *)
(* happens, loading gives exactly the content last saved, or after an      *)
(* interruption the content saved before or the new one, or an error.      *)
(*                                                                         *)
(* Invalidate: the old configuration is removed before anything is written.*)
(* Atomic: a configuration appears whole.  Notices: a refused write ends   *)
(* the save.  ConfigLast: the directory of the whole comes last and is     *)
(* invalidated first.  Lengths: files too short for their configuration    *)
(* are refused.  Each of the first four is needed: FALSE violates          *)
(* Faithful; the last one guards against what is done to files later.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Parts, ByName, Places, MaxLen, MaxSaves,
          Invalidate, Atomic, Notices, ConfigLast, Lengths
\* Parts: the directories in the order saved; the last one stands for the whole.
VARIABLES disk, pc, target, place, saves, allowed
vars == <<disk, pc, target, place, saves, allowed>>

One == <<"data">>
Table == <<"config">>
Index == <<"data", "graph", "config">>
N == Len(Parts)
Dirs == {Parts[i] : i \in 1..N}
None == [v |-> 0]
NoFile == [v |-> 0, u |-> 0, len |-> 0]
EmptyDir == [cfg |-> None, file |-> NoFile]
Blank == [d \in Dirs |-> EmptyDir]
Error == [v |-> 0, len |-> 0]

\* The steps of a save of something whose files have n pieces.
Steps(d, n) == (IF Invalidate THEN <<[op |-> "drop", d |-> d]>> ELSE <<>>)
               \o <<[op |-> "open", d |-> d]>>
               \o [i \in 1..n |-> [op |-> "piece", d |-> d]]
               \o (IF d \in ByName THEN <<>> ELSE <<[op |-> "seal", d |-> d]>>)
               \o (IF Atomic THEN <<>> ELSE <<[op |-> "half", d |-> d]>>)
               \o <<[op |-> "cfg", d |-> d]>>
RECURSIVE AllSteps(_, _)
AllSteps(i, n) == IF i > N THEN <<>> ELSE Steps(Parts[i], n) \o AllSteps(i + 1, n)
Save(n) == (IF ConfigLast /\ Invalidate THEN <<[op |-> "drop", d |-> Parts[N]]>> ELSE <<>>)
           \o AllSteps(1, n)

\* What a step does to a directory. A configuration tells parameters, the identifier of the
\* file and its number of pieces; cut in half, it may read as fewer pieces.
Do(s, dir, t) ==
    CASE s.op = "drop" -> [dir EXCEPT !.cfg = None]
      [] s.op = "open" -> [dir EXCEPT !.file = [v |-> t.v, u |-> 0, len |-> 0]]
      [] s.op = "piece" -> [dir EXCEPT !.file.len = @ + 1]
      [] s.op = "seal" -> [dir EXCEPT !.file.u = t.v]
      [] s.op = "half" -> [dir EXCEPT !.cfg = [v |-> t.v, u |-> t.v, len |-> t.len - 1]]
      [] OTHER -> [dir EXCEPT !.cfg = [v |-> t.v, u |-> t.v, len |-> t.len]]

\* Loading a directory: what the parameters are of, what the file is of, and how much of it.
Loads(d, dir) ==
    LET ok == /\ dir.cfg # None
              /\ d \in ByName \/ dir.file.u = dir.cfg.u
              /\ Lengths => dir.file.len >= dir.cfg.len
    IN IF ~ok THEN {} ELSE {<<dir.cfg.v, dir.file.v, IF dir.file.len < dir.cfg.len THEN 99 ELSE dir.cfg.len>>}
Loaded(p) ==
    LET all == UNION {Loads(d, disk[p][d]) : d \in Dirs}
    IN IF \E d \in Dirs : Loads(d, disk[p][d]) = {} THEN Error
       ELSE IF Cardinality(all) = 1 /\ \A x \in all : x[1] = x[2]
            THEN LET x == CHOOSE x \in all : TRUE IN [v |-> x[1], len |-> x[3]]
       ELSE [v |-> 99, len |-> 0]      \* a mixture

Init == /\ disk = [p \in Places |-> Blank]
        /\ pc = <<>> /\ target = Error /\ place \in Places /\ saves = 0
        /\ allowed = [p \in Places |-> {Error}]

Begin ==
    /\ pc = <<>> /\ saves < MaxSaves
    /\ saves' = saves + 1
    /\ \E p \in Places : \E n \in 1..MaxLen :
          /\ place' = p
          /\ target' = [v |-> saves + 1, len |-> n]
          /\ pc' = Save(n)
          /\ allowed' = [allowed EXCEPT ![p] = @ \union {[v |-> saves + 1, len |-> n], Error}]
    /\ UNCHANGED disk
Act ==
    /\ pc # <<>>
    /\ LET s == Head(pc)
       IN \E refused \in (IF ~Notices /\ s.op \in {"piece", "half"} THEN BOOLEAN ELSE {FALSE}) :
             disk' = IF refused THEN disk ELSE [disk EXCEPT ![place][s.d] = Do(s, @, target)]
    /\ pc' = Tail(pc)
    \* Saved: from now on only this.
    /\ allowed' = IF pc' = <<>> THEN [allowed EXCEPT ![place] = {target}] ELSE allowed
    /\ UNCHANGED <<target, place, saves>>
\* The process ends, or a step is refused and the save with it.
Stop == /\ pc # <<>> /\ pc' = <<>>
        /\ UNCHANGED <<disk, target, place, saves, allowed>>
\* All directories together.
Copy == /\ pc = <<>>
        /\ \E p, q \in Places :
              /\ p # q
              /\ disk' = [disk EXCEPT ![q] = disk[p]]
              /\ allowed' = [allowed EXCEPT ![q] = allowed[p]]
        /\ UNCHANGED <<pc, target, place, saves>>
Next == Begin \/ Act \/ Stop \/ Copy
Spec == Init /\ [][Next]_vars

Faithful == pc = <<>> => \A p \in Places : Loaded(p) \in allowed[p]
\* Even while a save goes on, another process that loads sees old, new or an error.
Always == \A p \in Places : Loaded(p) \in allowed[p]
\* A copy is as good as the original.
Typed == \A p \in Places : allowed[p] # {}
=============================================================================
