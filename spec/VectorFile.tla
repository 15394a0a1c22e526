----------------------------- MODULE VectorFile -----------------------------
(***************************************************************************)
(* Writers and readers of vector files: a writer puts down a header,       *)
(* appends vectors piece by piece and (v1) rewrites the header at the end; *)
(* a reader may come at any moment, and works from the bytes alone, as the *)
(* real ones do.  The v1 header is modelled with the two numbers only.     *)
(***************************************************************************)
EXTENDS FileRules

CONSTANTS MaxN, MaxD, Sizes, Bytes

VARIABLES fmt, c, file, next, done
vars == <<fmt, c, file, next, done>>

\* For v1 two numbers of one byte each (the rest of the header does not matter here).
Head1(n, d) == <<n, d>>
Lines(f, x) == Concat([i \in 1..Len(x.vs) |-> LineOf(f, x, i)])
Start(f, x) == CASE f = "vecs" -> <<>>
                 [] f = "bin" -> HeadOf(f, Len(x.vs), x.d, <<>>)
                 [] f = "v1" -> Head1(0, 0)

Contents == UNION {[d : {d}, es : {s}, vs : UNION {[1..n -> [1..(d * s) -> Bytes]] : n \in 0..MaxN}] :
                    d \in 1..MaxD, s \in Sizes}
Init == /\ fmt \in {"vecs", "bin", "v1"}
        /\ c \in Contents
        /\ file = Start(fmt, c) /\ next = 1 /\ done = FALSE
\* The next byte of what is to be appended.
Append1 == /\ next <= Len(Lines(fmt, c))
           /\ file' = Append(file, Lines(fmt, c)[next]) /\ next' = next + 1
           /\ UNCHANGED <<fmt, c, done>>
Close == /\ ~done /\ next > Len(Lines(fmt, c))
         /\ file' = IF fmt = "v1" THEN Head1(Len(c.vs), c.d) \o SubSeq(file, 3, Len(file)) ELSE file
         /\ done' = TRUE /\ UNCHANGED <<fmt, c, next>>
Next == Append1 \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

No == [ok |-> FALSE, vs |-> <<>>]
Yes(vs) == [ok |-> TRUE, vs |-> vs]
\* What a reader of elements of s bytes makes of the bytes.
Cut(b, from, n, size, gap) == [i \in 1..n |-> SubSeq(b, from + (i - 1) * (size + gap) + gap,
                                                      from + i * (size + gap) - 1)]
ReadVecs(b, s) ==
    IF Len(b) < 4 THEN No
    ELSE LET d == Word(b, 1)
             line == 4 + d * s
         IN IF Len(b) % line # 0 THEN No
            ELSE Yes(Cut(b, 1, Len(b) \div line, d * s, 4))
ReadBin(b, s) ==
    IF Len(b) < 8 THEN No
    ELSE LET n == Word(b, 1)
             d == Word(b, 5)
         IN IF n * d = 0 THEN IF Len(b) = 8 THEN Yes(<<>>) ELSE No
            ELSE IF (Len(b) - 8) % (n * d) # 0 \/ (Len(b) - 8) \div (n * d) # s THEN No
            ELSE Yes(Cut(b, 9, n, d * s, 0))
ReadV1(b, s) ==
    IF Len(b) < 2 THEN No
    ELSE IF Len(b) < 2 + b[1] * b[2] * s THEN No
    ELSE Yes(Cut(b, 3, b[1], b[2] * s, 0))
Read(b, s) == CASE fmt = "vecs" -> ReadVecs(b, s)
                [] fmt = "bin" -> ReadBin(b, s)
                [] fmt = "v1" -> ReadV1(b, s)

IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
\* The size of a whole file as the rules have it (with the real header of v1).
Real(n) == IF fmt = "v1" THEN n + 1022 ELSE n

Whole == done => Read(file, c.es) = (IF file = <<>> THEN No ELSE Yes(c.vs))
\* Before the end: nothing, or vectors from the front, and none or all unless every vector
\* carries its own length.
Partial == LET r == Read(file, c.es)
           IN r.ok => /\ IsPrefix(r.vs, c.vs)
                               /\ (fmt = "bin" => r.vs = c.vs)
                               /\ ((fmt = "v1" /\ ~done) => r.vs = <<>>)
\* The byte-free rule the recordings are held against says the same of every cut.
AgreesWithRule ==
    done => \A k \in 0..Len(file) :
        LET b == SubSeq(file, 1, k)
            r == Read(b, c.es)
            g == IF fmt = "v1" /\ k < 2 THEN -1 ELSE Gives(fmt, c, Real(k), -1)
        IN r = IF g = -1 THEN No ELSE Yes(SubSeq(c.vs, 1, g))
\* If the rule says so, then the size of the elements is the only one that fits.
Deduced(b, s) == LET r == ReadVecs(b, s) IN r.ok /\ \A i \in 1..Len(r.vs) :
                    Word(b, 1 + (i - 1) * (4 + Word(b, 1) * s)) = Word(b, 1)
TellingTells ==
    (done /\ fmt = "vecs" /\ c.vs # <<>> /\ Telling(c)) =>
        \A s \in ElementSizes : s < c.es => ~Deduced(file, s)
Ends == <>done
=============================================================================
