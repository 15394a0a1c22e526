-------------------------------- MODULE IdMap --------------------------------
(***************************************************************************)
(* The map between external and internal ids (core/translation.h).        *)
(*                                                                         *)
(* Rules: what each call does to the map, a set of pairs <<ext, int>>.     *)
(* Design: two one-way tables changed one entry at a time, as the code     *)
(* does; they must stay mirror images whenever a call has ended, and every *)
(* call must agree with the rules.                                         *)
(***************************************************************************)
EXTENDS Common

Exts(m) == {p[1] : p \in m}
Ints(m) == {p[2] : p \in m}
OneToOne(m) == /\ \A p, q \in m : (p[1] = q[1]) <=> (p[2] = q[2])

Zip(ext, int) == {<<ext[k], int[k]>> : k \in 1..Len(ext)}
InsertAllowed(m, ext, int) ==
    /\ Len(ext) = Len(int)
    /\ NoDup(ext) /\ NoDup(int)
    /\ Range(ext) \cap Exts(m) = {}
    /\ Range(int) \cap Ints(m) = {}
Inserted(m, ext, int) == m \union Zip(ext, int)
WithoutExts(m, ids) == {p \in m : p[1] \notin Range(ids)}
WithoutInts(m, ids) == {p \in m : p[2] \notin Range(ids)}
Remapped(m, from, to) == {IF p[2] = from THEN <<p[1], to>> ELSE p : p \in m}
Identity(ids, n) == {<<ids[k], ids[k]>> : k \in 1..n}

-----------------------------------------------------------------------------
CONSTANTS Out, Inn, MaxBatch
VARIABLES e2i, i2e, abs, call
dvars == <<e2i, i2e, abs, call>>

Empty == <<>>
Seqs(S) == UNION {[1..n -> S] : n \in 0..MaxBatch}
Set(f, x, y) == [z \in DOMAIN f \union {x} |-> IF z = x THEN y ELSE f[z]]
Drop(f, x) == [z \in DOMAIN f \ {x} |-> f[z]]
Idle == [op |-> "idle"]

DInit == e2i = Empty /\ i2e = Empty /\ abs = {} /\ call = Idle

\* The checks come first, on the two tables; then entries go in one by one.
StartInsert(ext, int) ==
    /\ call = Idle
    /\ LET ok == /\ Len(ext) = Len(int) /\ NoDup(ext) /\ NoDup(int)
                 /\ Range(ext) \cap DOMAIN e2i = {}
                 /\ Range(int) \cap DOMAIN i2e = {}
       IN /\ Assert(ok = InsertAllowed(abs, ext, int), "the checks decide as the rules do")
          /\ IF ok THEN /\ call' = [op |-> "insert", ext |-> ext, int |-> int, k |-> 1]
                        /\ abs' = Inserted(abs, ext, int)
                   ELSE UNCHANGED <<call, abs>>
    /\ UNCHANGED <<e2i, i2e>>
StepInsert ==
    /\ call.op = "insert"
    /\ IF call.k > Len(call.ext) THEN call' = Idle /\ UNCHANGED <<e2i, i2e>>
       ELSE /\ e2i' = Set(e2i, call.ext[call.k], call.int[call.k])
            /\ i2e' = Set(i2e, call.int[call.k], call.ext[call.k])
            /\ call' = [call EXCEPT !.k = @ + 1]
    /\ UNCHANGED abs
StartDelete(ids) ==
    /\ call = Idle /\ NoDup(ids)
    /\ IF Range(ids) \subseteq DOMAIN e2i
       THEN /\ call' = [op |-> "delete", ids |-> ids, k |-> 1]
            /\ abs' = WithoutExts(abs, ids)
       ELSE UNCHANGED <<call, abs>>
    /\ UNCHANGED <<e2i, i2e>>
StepDelete ==
    /\ call.op = "delete"
    /\ IF call.k > Len(call.ids) THEN call' = Idle /\ UNCHANGED <<e2i, i2e>>
       ELSE /\ i2e' = Drop(i2e, e2i[call.ids[call.k]])
            /\ e2i' = Drop(e2i, call.ids[call.k])
            /\ call' = [call EXCEPT !.k = @ + 1]
    /\ UNCHANGED abs
Remap(from, to) ==
    /\ call = Idle /\ from \in DOMAIN i2e /\ to \notin DOMAIN i2e
    /\ e2i' = Set(e2i, i2e[from], to)
    /\ i2e' = Set(Drop(i2e, from), to, i2e[from])
    /\ abs' = Remapped(abs, from, to)
    /\ UNCHANGED call
\* Saving writes one table entry by entry; loading inserts them into an empty map.
Reload == /\ call = Idle
          /\ i2e' = [i \in {e2i[e] : e \in DOMAIN e2i} |-> CHOOSE e \in DOMAIN e2i : e2i[e] = i]
          /\ UNCHANGED <<e2i, abs, call>>
DNext == \/ \E ext \in Seqs(Out), int \in Seqs(Inn) : StartInsert(ext, int)
         \/ StepInsert \/ StepDelete
         \/ \E ids \in Seqs(Out) : StartDelete(ids)
         \/ \E from, to \in Inn : Remap(from, to)
         \/ Reload
DSpec == DInit /\ [][DNext]_dvars

Mirror == call = Idle =>
    /\ \A e \in DOMAIN e2i : e2i[e] \in DOMAIN i2e /\ i2e[e2i[e]] = e
    /\ Cardinality(DOMAIN e2i) = Cardinality(DOMAIN i2e)
    /\ abs = {<<e, e2i[e]>> : e \in DOMAIN e2i}
AbstractOneToOne == OneToOne(abs)
=============================================================================
