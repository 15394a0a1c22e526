----------------------------- MODULE SearchBuffer -----------------------------
(***************************************************************************)
(* The algorithm of MutableBuffer (dynamic_search_buffer.h): the cursor    *)
(* best_unvisited_, the incrementally maintained end of the region of      *)
(* interest roi_end_ and the count valid_, with the case analysis of its   *)
(* unsafe_insert.  TLC checks that it always shows exactly the abstract    *)
(* buffer of BufferRules, for every sequence of insertions and             *)
(* expansions over a small universe of candidates.  With every candidate   *)
(* live it is the static SearchBuffer with its split window.               *)
(***************************************************************************)
EXTENDS BufferRules

CONSTANTS Cands,      \* candidate ids
          Dists,      \* possible distances
          MaxCap,     \* largest capacity
          AllLive     \* TRUE: no soft-deleted candidates

VARIABLES meta,  \* id -> [d, ok]: fixed for a search
          w, cap,
          buf,   \* the implementation's array
          bu, roi, valid,    \* cursor, end of the region of interest, count (0-based)
          abs,   \* the abstract buffer
          offered
vars == <<meta, w, cap, buf, bu, roi, valid, abs, offered>>

Item(id) == [id |-> id, d |-> meta[id].d, vis |-> FALSE, ok |-> meta[id].ok]

Init ==
    /\ meta \in [Cands -> [d : Dists, ok : IF AllLive THEN {TRUE} ELSE BOOLEAN]]
    /\ cap \in 1..MaxCap
    /\ w \in 1..cap
    \* The entry point is pushed and the buffer sorted.
    /\ \E e \in Cands :
        /\ buf = <<Item(e)>>
        /\ abs = <<Item(e)>>
        /\ offered = {e}
        /\ valid = IF meta[e].ok THEN 1 ELSE 0
        /\ bu = 0
        /\ roi = 1

\* 0-based access as in the implementation.
At(b, i) == b[i + 1]

RECURSIVE WalkBack(_, _)
WalkBack(b, i) == IF At(b, i).ok THEN i ELSE WalkBack(b, i - 1)

Full == valid = cap
CanSkip(d) == Full /\ buf # <<>> /\ Better("L2", buf[Len(buf)].d, d)

InsertImpl(x) ==
    IF CanSkip(x.d) \/ Has(buf, x.id)
    THEN UNCHANGED <<buf, bu, roi, valid>>
    ELSE
      LET pos == InsertPos("L2", buf, x.d) - 1          \* 0-based offset
          b1 == InsertAt(buf, pos + 1, x)
          size == Len(b1)
          v1 == valid + (IF x.ok THEN 1 ELSE 0)
          below == pos < roi
          r1 == IF v1 < w THEN size
                ELSE IF v1 = w
                     THEN IF x.ok THEN WalkBack(b1, roi) + 1
                          ELSE IF below THEN roi + 1 ELSE roi
                     ELSE IF below
                          THEN IF x.ok THEN WalkBack(b1, roi - 1) + 1 ELSE roi + 1
                          ELSE roi
          slack == v1 - cap
      IN /\ bu' = Min(bu, pos)
         /\ roi' = r1
         /\ IF w = cap
            THEN /\ buf' = SubSeq(b1, 1, r1)
                 /\ valid' = IF slack > 0 THEN v1 - 1 ELSE v1
            ELSE IF slack = 0
            THEN /\ buf' = SubSeq(b1, 1, WalkBack(b1, size - 1) + 1)
                 /\ valid' = v1
            ELSE IF slack > 0
            THEN /\ buf' = SubSeq(b1, 1, WalkBack(b1, size - 2) + 1)
                 /\ valid' = v1 - 1
            ELSE /\ buf' = b1
                 /\ valid' = v1

Offer(id) ==
    /\ InsertImpl(Item(id))
    /\ abs' = Insert("L2", abs, Item(id), cap)
    /\ offered' = offered \union {id}
    /\ UNCHANGED <<meta, w, cap>>

ImplDone == bu = (IF valid < w THEN Len(buf) ELSE roi)

RECURSIVE Advance(_, _, _)
Advance(b, i, end) == IF i = end THEN i ELSE IF At(b, i).vis THEN Advance(b, i + 1, end) ELSE i

Expand ==
    /\ ~ImplDone
    /\ LET b1 == [buf EXCEPT ![bu + 1].vis = TRUE]
       IN /\ buf' = b1
          /\ bu' = Advance(b1, bu + 1, roi)
    /\ abs' = Visit(abs, w)
    /\ UNCHANGED <<meta, w, cap, roi, valid, offered>>

Next == Expand \/ \E id \in Cands : Offer(id)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The implementation shows the abstract buffer.                           *)
(***************************************************************************)
Same == buf = abs
DoneAgrees == ImplDone <=> IsDone(abs, w)
CursorAgrees == ~ImplDone => bu + 1 = NextPos(abs, w)
SkipHarmless == \A id \in Cands : CanSkip(meta[id].d) => Insert("L2", abs, Item(id), cap) = abs

(***************************************************************************)
(* What the abstract buffer guarantees (C10, C11).                         *)
(***************************************************************************)
OrderedDistinct == Sorted("L2", abs) /\ Distinct(abs)
\* Every offered live candidate is kept unless cap live ones at least as near are.
BestLiveKept ==
    \A id \in offered : meta[id].ok /\ ~Has(abs, id) =>
        Cardinality({i \in 1..Len(abs) : abs[i].ok /\ abs[i].d <= meta[id].d}) >= cap
\* Deleted candidates that are nearer than the last live one of a full buffer are kept.
NearerDeletedKept ==
    \A id \in offered : ~meta[id].ok /\ ~Has(abs, id) =>
        Cardinality({i \in 1..Len(abs) : abs[i].ok /\ abs[i].d <= meta[id].d}) >= cap
Bounded == LiveCount(abs) <= cap /\ (LiveCount(abs) = cap => abs[Len(abs)].ok)
OnlyOffered == \A i \in 1..Len(abs) : abs[i].id \in offered
\* Nothing is lost to a window smaller than the capacity.
NoStarvation == IsDone(abs, w) => \A i \in 1..Roi(abs, w) : abs[i].vis
=============================================================================
