------------------------------ MODULE HandOver ------------------------------
(***************************************************************************)
(* When the open stripe is handed over (writer.rs, write_batch), and what  *)
(* can be told of it afterwards.  Every column has an encoder that holds   *)
(* back up to Lag values; the size of the stripe is what the encoders have *)
(* put out.  An observer sees the batches, whether the sink grew, and the  *)
(* finished file - that is, for every batch boundary how many values each  *)
(* column had, but not what its encoder held back.  Judge (J10 of          *)
(* Judge.tla) decides from that alone.                                     *)
(*   Sound     the judge never complains about the rule as it is           *)
(*   (canary)  each wrong rule has a history about which it complains      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS NCols, Lag, Size, MaxRows, MaxBatch, MaxBatches,
          Rule    \* "right"; "late" a batch too late; "equal" already at the size;
                  \* "column" the last column does not count; "empty" also without rows
VARIABLES n,        \* values per column of the open stripe
          put,      \* values its encoder has put out
          rows, was, marks, closed, phase, total
vars == <<n, put, rows, was, marks, closed, phase, total>>

Zeros == [c \in 1..NCols |-> 0]
Sum(f, S) == FoldLeft(LAMBDA a, c : IF c \in S THEN a + f[c] ELSE a, 0, [c \in 1..NCols |-> c])
Max0(x) == IF x < 0 THEN 0 ELSE x
Init == n = Zeros /\ put = Zeros /\ rows = 0 /\ was = FALSE /\ marks = <<>> /\ closed = <<>> /\ phase = "open" /\ total = 0

Over(p) == CASE Rule = "equal" -> Sum(p, 1..NCols) >= Size
             [] Rule = "column" -> Sum(p, 1..(NCols - 1)) > Size
             [] OTHER -> Sum(p, 1..NCols) > Size
(* r rows: every column gets between none and r of values of a byte each (nulls take none) *)
Batch(r) ==
  /\ phase = "open" /\ Len(marks) < MaxBatches /\ total + r <= MaxRows
  /\ total' = total + r
  /\ \E v \in [1..NCols -> 0..r], h \in [1..NCols -> 0..Lag] :
       LET n1 == [c \in 1..NCols |-> n[c] + v[c]]
           p1 == [c \in 1..NCols |-> IF n1[c] - h[c] > put[c] THEN n1[c] - h[c] ELSE put[c]]
           now == IF Rule = "late" THEN was ELSE IF Rule = "empty" THEN Over(p1) \/ r = 0 ELSE Over(p1)
       IN /\ marks' = Append(marks, [stripe |-> Len(closed) + 1, closed |-> now, n |-> n1, rows |-> r])
          /\ IF now
             THEN /\ closed' = Append(closed, [rows |-> rows + r, n |-> n1])
                  /\ n' = Zeros /\ put' = Zeros /\ rows' = 0 /\ was' = FALSE
             ELSE n' = n1 /\ put' = p1 /\ rows' = rows + r /\ closed' = closed /\ was' = Over(p1)
  /\ UNCHANGED phase
Finish == /\ phase = "open" /\ phase' = "done"
          /\ closed' = IF rows > 0 THEN Append(closed, [rows |-> rows, n |-> n]) ELSE closed
          /\ n' = Zeros /\ put' = Zeros /\ rows' = 0 /\ UNCHANGED <<was, marks, total>>
Next == (\E r \in 0..MaxBatch : Batch(r)) \/ Finish

(* ---- the judge ---- *)
Low(m) == Sum([c \in 1..NCols |-> Max0(m.n[c] - Lag)], 1..NCols)
High(k) == Sum(closed[k].n, 1..NCols)
Complaints ==
  {i \in 1..Len(marks) : IF marks[i].closed THEN ~(High(marks[i].stripe) > Size) ELSE ~(Low(marks[i]) <= Size)}
Sound == phase = "done" => Complaints = {}
(* batches stay whole and in order, no stripe is empty *)
Sums(k) == FoldLeft(LAMBDA a, m : IF m.stripe = k THEN a + m.rows ELSE a, 0, marks)
Whole == phase = "done" => \A k \in 1..Len(closed) : closed[k].rows = Sums(k) /\ closed[k].rows > 0
Ordered == \A i, j \in 1..Len(marks) : i < j => marks[i].stripe <= marks[j].stripe
=============================================================================
