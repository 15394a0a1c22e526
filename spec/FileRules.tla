------------------------------ MODULE FileRules ------------------------------
(***************************************************************************)
(* Vector files, byte for byte.                                            *)
(*                                                                         *)
(* A content is a record [d, es, vs, uuid]: dimensions, bytes per element, *)
(* the vectors (each a sequence of d * es bytes) and an identifier of 16   *)
(* bytes.  Formats: "vecs" (every vector preceded by its dimensions),      *)
(* "bin" (numbers of vectors and dimensions, then the vectors), "v1" and   *)
(* "vtest" (a header of HeadSize bytes, then the vectors).                 *)
(***************************************************************************)
EXTENDS Common

Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Digits(_, _)
Digits(n, k) == IF k = 0 THEN <<>> ELSE <<n % 256>> \o Digits(n \div 256, k - 1)
\* A number in k bytes, least significant first; and back (from four).
LE(n, k) == TLCEval(Digits(n, k))
\* -1 stands for everything above 2^31.
Word(b, at) == IF b[at + 3] >= 128 THEN -1
               ELSE b[at] + 256 * b[at + 1] + 65536 * b[at + 2] + 16777216 * b[at + 3]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Magic(fmt) == CASE fmt = "v1" -> <<254, 128, 153, 87, 178, 166, 212, 202>>
                [] fmt = "vtest" -> <<4, 79, 67, 29, 144, 212, 58, 248>>
                [] fmt = "database" -> <<163, 195, 56, 184, 74, 100, 176, 38>>

\* What precedes the vectors (for v1 and vtest: the first forty bytes, zeros follow).
HeadOf(fmt, n, d, uuid) ==
    CASE fmt = "vecs" -> <<>>
      [] fmt = "bin" -> LE(n, 4) \o LE(d, 4)
      [] fmt = "v1" -> Magic(fmt) \o uuid \o LE(n, 8) \o LE(d, 8)
      [] fmt = "vtest" -> Magic(fmt) \o LE(n, 8) \o LE(d, 8) \o uuid
HeadSize(fmt) == CASE fmt = "vecs" -> 0 [] fmt = "bin" -> 8 [] fmt = "v1" -> 1024 [] fmt = "vtest" -> 64
Line(fmt, c) == c.d * c.es + (IF fmt = "vecs" THEN 4 ELSE 0)
LineOf(fmt, c, i) == (IF fmt = "vecs" THEN LE(c.d, 4) ELSE <<>>) \o c.vs[i]

\* The bytes of a complete file without the zeros between header and vectors, and its size.
Layout(fmt, c) == HeadOf(fmt, Len(c.vs), c.d, c.uuid)
                  \o Concat([i \in 1..Len(c.vs) |-> LineOf(fmt, c, i)])
SizeOf(fmt, c) == HeadSize(fmt) + Len(c.vs) * Line(fmt, c)

\* How many vectors a file of `size` bytes, otherwise as written, gives to a reader of elements
\* of the same size who asks for at most `max`; -1: it is refused.
Gives(fmt, c, size, max) ==
    LET n == Len(c.vs)
        want == IF max < 0 THEN n ELSE Min(max, n)
    IN IF size = 0 THEN -1
       ELSE CASE fmt = "vecs" ->
                    IF size < 4 \/ size % Line(fmt, c) # 0 THEN -1
                    ELSE IF max < 0 THEN size \div Line(fmt, c) ELSE Min(max, size \div Line(fmt, c))
              [] fmt = "bin" -> IF size # SizeOf(fmt, c) THEN -1 ELSE want
              [] fmt \in {"v1", "vtest"} ->
                    IF size < HeadSize(fmt) + want * Line(fmt, c) THEN -1 ELSE want

\* The size of the elements of a vecs file can be told from its lengths: for every smaller size
\* one of the first ten lines, the file being long enough, would not start with the dimensions.
ElementSizes == {1, 2, 4, 8}
RECURSIVE Misfit(_, _, _, _, _)
Misfit(b, size, d, s, k) ==
    LET p == k * (4 + s * d)
    IN IF k = 10 \/ p = size THEN FALSE
       ELSE p + 4 > size \/ Word(b, p + 1) # d \/ Misfit(b, size, d, s, k + 1)
Telling(c) == LET b == TLCEval(Layout("vecs", c))
              IN \A s \in ElementSizes : s < c.es => Misfit(b, Len(b), c.d, s, 1)

\* The schema a file belongs to.
Schemas == {"v1", "vtest", "database"}
=============================================================================
