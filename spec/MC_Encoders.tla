---------------------------- MODULE MC_Encoders ----------------------------
(***************************************************************************)
(* Exhaustive check of the encoders: every sequence of at most N values of *)
(* Alphabet, through all three encoders side by side (byte and integer     *)
(* encoder get the value, the bit encoder its lowest bit).                  *)
(***************************************************************************)
EXTENDS Encoders
CONSTANTS N, Alphabet
VARIABLES hist, b, i, o, pb, pi, po
vars == <<hist, b, i, o, pb, pi, po>>

Init == /\ hist = <<>> /\ b = ByteInit /\ i = IntInit /\ o = BoolInit
        /\ pb = <<BytePos(b)>> /\ pi = <<IntPos(i)>> /\ po = <<BoolPos(o)>>
Write(x) ==
  /\ Len(hist) < N
  /\ hist' = Append(hist, x)
  /\ b' = ByteWrite(b, x) /\ pb' = Append(pb, BytePos(b'))
  /\ i' = IntWrite(i, x) /\ pi' = Append(pi, IntPos(i'))
  /\ o' = BoolWrite(o, x % 2) /\ po' = Append(po, BoolPos(o'))
Next == \E x \in Alphabet : Write(x)

(* nothing lost or reordered while values are pending, and at the end *)
ByteContent == /\ Expand(b.out) \o BytePending(b) = hist
               /\ Expand(ByteFlush(b).out) = hist
IntContent  == /\ Expand(i.out) \o IntPending(i) = hist
               /\ Expand(IntFlush(i).out) = hist
Bits == [k \in 1..Len(hist) |-> hist[k] % 2]
BoolContent == LET v == Expand(BoolFlush(o).out) IN
               /\ Len(v) = (Len(hist) + BW - 1) \div BW
               /\ SubSeq(BitsOf(v), 1, Len(hist)) = Bits
GroupsLegal == /\ \A k \in 1..Len(ByteFlush(b).out) : GroupOk(ByteFlush(b).out[k])
               /\ \A k \in 1..Len(IntFlush(i).out) : GroupOk(IntFlush(i).out[k])
(* every position ever recorded still leads to the values written after it *)
Positions ==
  \A k \in 1..(Len(hist) + 1) :
    /\ Resume(ByteFlush(b).out, pb[k]) = Drop(hist, k - 1)
    /\ Resume(IntFlush(i).out, pi[k]) = Drop(hist, k - 1)
    /\ LET rest == Resume(BoolFlush(o).out, po[k][1]) IN
       SubSeq(Drop(BitsOf(rest), po[k][2]), 1, Len(hist) - k + 1) = Drop(Bits, k - 1)
(* what J10 (Judge.tla) takes as certainly encoded after k values: whole groups of the
   finished stream that ended three or more values earlier *)
Ends(gs) == [j \in 1..Len(gs) |-> Len(Expand(SubSeq(gs, 1, j)))]
HeldSound ==
  LET B == ByteFlush(b).out
      I == IntFlush(i).out
      eb == Ends(B)
      ei == Ends(I)
  IN \A k \in 0..Len(hist) :
       /\ \A j \in 1..Len(B) : eb[j] <= k - 3 => pb[k + 1][1] >= j
       /\ \A j \in 1..Len(I) : ei[j] <= k - 3 => pi[k + 1][1] >= j
(* the encoder compresses: a run of equal values is never left literal *)
Compresses == \A k \in 1..Len(i.out) : i.out[k].n = 0 =>
   \A j \in 1..(Len(i.out[k].lit) - 2) :
      LET l == i.out[k].lit IN ~(l[j] = l[j + 1] /\ l[j] = l[j + 2])
=============================================================================
