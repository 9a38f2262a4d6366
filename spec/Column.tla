------------------------------- MODULE Column -------------------------------
(***************************************************************************)
(* One column as src/writer/data/*.rs keeps it: a partial summary of the   *)
(* open row group, one of the open stripe, the entries of finished row     *)
(* groups, and the hand-over of stripes (stripe.rs) and of the file        *)
(* (writer.rs).  The cells themselves are history variables; the           *)
(* invariants compare every summary with the cells it stands for.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS Vals,       \* values
          Stride,     \* rows per row group; 0 = one group
          Lim,        \* sums beyond -Lim..Lim overflow
          N,          \* cells per run
          MaxStripes,
          Early       \* TRUE: stripe statistics are collected before the last
                      \* row group is closed (before fix 1f3b04b; must fail)
Null == 99
None == 98            \* absent minimum, maximum or sum

VARIABLES rg, st, pos, ents, cells, done, fin, part
vars == <<rg, st, pos, ents, cells, done, fin, part>>

Empty == [n |-> 0, p |-> 0, min |-> None, max |-> None, sum |-> 0]
Plus(a, b) == IF a = None \/ b = None \/ a + b > Lim \/ a + b < -Lim THEN None ELSE a + b
Lo(a, b) == IF a = None THEN b ELSE IF b = None THEN a ELSE IF b < a THEN b ELSE a
Hi(a, b) == IF a = None THEN b ELSE IF b = None THEN a ELSE IF b > a THEN b ELSE a
Update(s, x) == IF x = Null THEN [s EXCEPT !.n = @ + 1]
                ELSE [n |-> s.n + 1, p |-> s.p + 1, min |-> Lo(s.min, x), max |-> Hi(s.max, x), sum |-> Plus(s.sum, x)]
Merge(a, b) == [n |-> a.n + b.n, p |-> a.p + b.p, min |-> Lo(a.min, b.min), max |-> Hi(a.max, b.max), sum |-> Plus(a.sum, b.sum)]

(* positions: cells in the present stream, values in the data stream *)
Posn(cs) == [present |-> Len(cs), data |-> Len(SelectSeq(cs, LAMBDA x : x # Null))]

Init == /\ rg = Empty /\ st = Empty /\ pos = Posn(<<>>) /\ ents = <<>> /\ cells = <<>>
        /\ done = <<>> /\ fin = FALSE /\ part = Empty

Close(s) == [rg |-> Empty, st |-> Merge(s.st, s.rg), pos |-> Posn(cells'),
             ents |-> Append(s.ents, [stats |-> s.rg, pos |-> s.pos])]

Write(x) ==
  /\ ~fin /\ Len(cells) + FoldLeft(LAMBDA a, d : a + Len(d.cells), 0, done) < N
  /\ cells' = Append(cells, x)
  /\ LET r == Update(rg, x)
         c == Close([rg |-> r, st |-> st, pos |-> pos, ents |-> ents])
     IN IF r.n = Stride THEN rg' = c.rg /\ st' = c.st /\ pos' = c.pos /\ ents' = c.ents
        ELSE rg' = r /\ UNCHANGED <<st, pos, ents>>
  /\ UNCHANGED <<done, fin, part>>

HandOver ==
  LET c == IF rg.n > 0 THEN [st |-> Merge(st, rg), ents |-> Append(ents, [stats |-> rg, pos |-> pos])]
           ELSE [st |-> st, ents |-> ents]
  IN Append(done, [stats |-> IF Early THEN st ELSE c.st, ents |-> c.ents, cells |-> cells,
                   hasP |-> c.st.n # c.st.p])
EndStripe ==
  /\ ~fin /\ cells # <<>> /\ Len(done) < MaxStripes
  /\ done' = HandOver
  /\ rg' = Empty /\ st' = Empty /\ pos' = [present |-> 0, data |-> 0] /\ ents' = <<>> /\ cells' = <<>>
  /\ UNCHANGED <<fin, part>>
Finish ==
  /\ ~fin /\ Len(done) < MaxStripes
  /\ LET d == IF cells = <<>> THEN done ELSE HandOver IN
     /\ done' = d
     /\ part' = FoldLeft(LAMBDA a, x : Merge(a, x.stats), Empty, d)
  /\ fin' = TRUE /\ cells' = <<>> /\ rg' = Empty /\ st' = Empty /\ pos' = [present |-> 0, data |-> 0] /\ ents' = <<>>
Next == (\E x \in Vals \cup {Null} : Write(x)) \/ EndStripe \/ Finish

(* ---- what a summary has to say ---- *)
SumOf(cs) == FoldLeft(LAMBDA a, x : IF x = Null THEN a ELSE a + x, 0, cs)
AbsOf(cs) == FoldLeft(LAMBDA a, x : IF x = Null THEN a ELSE a + (IF x < 0 THEN -x ELSE x), 0, cs)
ValuesOf(cs) == {cs[i] : i \in {i \in 1..Len(cs) : cs[i] # Null}}
Says(s, cs) ==
  LET v == ValuesOf(cs) IN
  /\ s.n = Len(cs)
  /\ s.p = Len(SelectSeq(cs, LAMBDA x : x # Null))
  /\ IF v = {} THEN s.min = None /\ s.max = None
     ELSE s.min \in v /\ s.max \in v /\ \A x \in v : s.min <= x /\ x <= s.max
  /\ IF s.sum = None THEN AbsOf(cs) > Lim ELSE s.sum = SumOf(cs)
Groups(cs) == IF Stride = 0 THEN <<cs>>
              ELSE [g \in 1..((Len(cs) + Stride - 1) \div Stride) |->
                      SubSeq(cs, (g - 1) * Stride + 1, IF g * Stride < Len(cs) THEN g * Stride ELSE Len(cs))]
Open == Says(rg, SubSeq(cells, IF Stride = 0 THEN 1 ELSE (Len(cells) \div Stride) * Stride + 1, Len(cells)))
StripeStats == \A k \in 1..Len(done) : Says(done[k].stats, done[k].cells)
GroupStats == \A k \in 1..Len(done) :
   LET gs == Groups(done[k].cells) IN
   /\ Len(done[k].ents) = Len(gs)
   /\ \A g \in 1..Len(gs) : Says(done[k].ents[g].stats, gs[g])
GroupPositions == \A k \in 1..Len(done) : \A g \in 1..Len(done[k].ents) :
   done[k].ents[g].pos = Posn(SubSeq(done[k].cells, 1, (g - 1) * Stride))
PresentWhenNull == \A k \in 1..Len(done) : done[k].hasP <=> \E i \in 1..Len(done[k].cells) : done[k].cells[i] = Null
FileStats == fin => Says(part, FoldLeft(LAMBDA a, d : a \o d.cells, <<>>, done))
NoEmptyStripe == \A k \in 1..Len(done) : done[k].cells # <<>>
=============================================================================
