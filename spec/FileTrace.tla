------------------------------ MODULE FileTrace ------------------------------
(* Recorded writing and reading of real vector files against FileRules. *)
EXTENDS FileRules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* fmt and c: the format and content of the file at hand.
VARIABLES l, fmt, c
vars == <<l, fmt, c>>
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l + 1>>) /\ FALSE
Same == UNCHANGED <<fmt, c>>

Write(e) ==
    /\ fmt' = e.fmt
    /\ c' = [d |-> e.d, es |-> e.es, vs |-> e.vs, uuid |-> e.uuid]
    /\ Why("written", e.ok)
    /\ Why("size of the file", e.size = SizeOf(fmt', c'))
    /\ Why("the documented layout", e.bytes = Layout(fmt', c') /\ e.pad = 0)

\* Reading the file, or what was made of it by cutting it or adding to it.
Read(e) ==
    LET n == Gives(fmt, c, e.size, e.max)
    IN /\ Why("refused exactly when it does not hold what was asked for", e.ok = (n >= 0))
       /\ e.ok =>
            /\ Why("number and dimensions", e.n = n /\ e.d = c.d)
            /\ Why("the vectors written", e.vs = SubSeq(c.vs, 1, n))
            /\ Why("the same vectors when read again", e.again = SubSeq(c.vs, 1, Len(e.again))
                                                       /\ Len(e.again) = e.asked)

Dims(e) ==
    LET known == e.hint = c.es \/ (e.hint = 0 /\ (fmt # "vecs" \/ Telling(c)))
    IN /\ Why("an empty file is refused", e.size = 0 => ~e.ok)
       /\ Why("a size of elements that does not fit is refused",
              /\ (fmt = "vecs" /\ e.hint > 0 /\ e.size % (4 + e.hint * c.d) # 0) => ~e.ok
              /\ (fmt = "bin" /\ e.hint > 0 /\ e.hint # c.es /\ c.vs # <<>>) => ~e.ok)
       /\ Why("the dimensions of the file",
              (known /\ e.size > 0) => e.ok /\ e.d = c.d /\ (e.n = -1 \/ e.n = Len(c.vs)))

\* Values that the type of the file does not have are refused.
Convert(e) ==
    LET fits == \A i \in 1..Len(e.values) : \A j \in 1..Len(e.values[i]) :
                    e.values[i][j] >= e.low /\ e.values[i][j] <= e.high
    IN /\ Why("values that change are refused", e.ok = (fits /\ ~e.part))
       /\ e.ok => Why("converted values", e.back = e.values)

\* Files found by their identifiers among others.
Known(k) == k \in Schemas
Find(e) ==
    /\ Why("schemas", \A i \in 1..Len(e.kinds) :
                          e.schemas[i] = IF Known(e.kinds[i]) THEN e.kinds[i] ELSE "none")
    /\ Why("identifiers", \A i \in 1..Len(e.kinds) :
                          e.read[i] = IF Known(e.kinds[i]) THEN e.uuids[i] ELSE <<>>)
    /\ Why("found exactly when there",
           LET there == {i \in 1..Len(e.kinds) : Known(e.kinds[i]) /\ e.uuids[i] = e.wanted}
           IN IF there = {} THEN e.found = 0 ELSE e.found \in there)

\* A file in memory: the vectors in it, and what is stored there is in the file.
Map(e) ==
    /\ Why("what is there is mapped", e.ok = (e.want <= SizeOf(fmt, c) - HeadSize(fmt)))
    /\ IF e.ok
       THEN /\ Why("the bytes mapped", e.got = SubSeq(Concat(c.vs), 1, Len(e.got)) /\ Len(e.got) = e.want)
            /\ c' = [c EXCEPT !.vs = e.now] /\ UNCHANGED fmt
            /\ Why("what was stored is in the file", e.now = e.stored)
       ELSE Same
\* A mapped file by policy: "existing", "new" or "either".
Policy(e) ==
    /\ Why("policy and size", e.ok = (~(e.there /\ e.before < e.want) /\ CASE e.policy = "existing" -> e.there
                              [] e.policy = "new" -> ~e.there
                              [] e.policy = "either" -> TRUE))
    /\ Why("the size asked for", e.ok => e.size = IF e.there THEN e.before ELSE e.want)
    /\ Why("a refusal leaves what is there", ~e.ok => e.size = e.before)
    /\ Why("what is stored stays", e.ok => e.back = e.stored)
    /\ Same

\* A file cut after `keep` whole vectors, read in vain, then for those alone.
Recover(e) ==
    /\ Why("a file cut short is refused", e.failed)
    /\ Why("what is there can still be read", e.ok /\ e.vs = SubSeq(c.vs, 1, e.keep))

\* A large file, of which some elements were read: <<vector, element, value>>.
Bulk(e) ==
    /\ Why("written and read", e.ok)
    /\ Why("size of the file", e.size = HeadSize(e.fmt) + e.n * (e.d + (IF e.fmt = "vecs" THEN 4 ELSE 0)))
    /\ Why("number and dimensions", e.rn = e.n /\ e.rd = e.d)
    /\ Why("the elements written", \A i \in 1..Len(e.probes) :
            e.probes[i][3] = (7 * e.probes[i][1] + e.probes[i][2]) % 256)

\* The identifier as text.
Text(e) ==
    /\ Why("hyphens", e.hyphens = <<8, 13, 18, 23>>)
    /\ Why("digits", e.digits = Concat([i \in 1..16 |-> <<e.uuid[17 - i] \div 16, e.uuid[17 - i] % 16>>]))
    /\ Why("text and back", e.back = e.uuid /\ e.upper = e.uuid)
    /\ Same

Step(e) == CASE e.e = "write" -> Write(e)
             [] e.e = "read" -> (Read(e) = TRUE) /\ Same
             [] e.e = "dims" -> (Dims(e) = TRUE) /\ Same
             [] e.e = "unknown" -> Why("an unknown kind of file is refused", ~e.ok) /\ Same
             [] e.e = "convert" -> (Convert(e) = TRUE) /\ Same
             [] e.e = "recover" -> (Recover(e) = TRUE) /\ Same
             [] e.e = "bulk" -> (Bulk(e) = TRUE) /\ Same
             [] e.e = "find" -> (Find(e) = TRUE) /\ Same
             [] e.e = "map" -> Map(e)
             [] e.e = "policy" -> Policy(e)
             [] e.e = "text" -> Text(e)
Init == l = 0 /\ fmt = "" /\ c = [d |-> 0, es |-> 0, vs |-> <<>>, uuid |-> <<>>]
Next == l < Len(Trace) /\ l' = l + 1 /\ Step(Trace[l + 1])
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
