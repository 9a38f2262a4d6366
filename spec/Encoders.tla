------------------------------ MODULE Encoders ------------------------------
(***************************************************************************)
(* The value encoders of src/writer/encoder, step by step as the code does *)
(* them, with the limits of the format as constants so that TLC can run    *)
(* them exhaustively on small ones and along every control path with the   *)
(* real ones.  Output is a sequence of groups                              *)
(*   [n, base, delta]   a run of n values        (lit = <<>>)              *)
(*   [lit]              literal values           (n = 0)                   *)
(* A position is <<groups already output, values to skip>>, which is what  *)
(* the byte position of the code stands for.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS MaxLit,     \* literal values per group (128)
          MaxRun,     \* values per run (130)
          MinRun,     \* shortest run (3)
          W,          \* size of the integer domain 0..W-1, arithmetic modulo W
          DNeg, DHi   \* a run can express deltas -DNeg..DHi

Run(n, b, d) == [n |-> n, base |-> b, delta |-> d, lit |-> <<>>]
Lit(s) == [n |-> 0, base |-> 0, delta |-> 0, lit |-> s]

(* ---- expansion: what a reader makes of groups ---- *)
ExpandG(g) == IF g.n = 0 THEN g.lit ELSE [i \in 1..g.n |-> (g.base + (i - 1) * g.delta) % W]
Expand(gs) == FoldLeft(LAMBDA a, g : a \o ExpandG(g), <<>>, gs)
GroupOk(g) == IF g.n = 0 THEN Len(g.lit) \in 1..MaxLit
              ELSE g.n \in MinRun..MaxRun /\ g.delta \in (-DNeg)..DHi
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Resume(gs, pos) == Drop(Expand(Drop(gs, pos[1])), pos[2])

(* ---- bytes: byte_rle.rs ---- *)
ByteInit == [out |-> <<>>, buf |-> <<>>, run |-> 0]
ByteFlush(s) ==
  IF s.run > 0 THEN [out |-> Append(s.out, Run(s.run, s.buf[1], 0)), buf |-> <<>>, run |-> 0]
  ELSE IF s.buf # <<>> THEN [out |-> Append(s.out, Lit(s.buf)), buf |-> <<>>, run |-> 0]
  ELSE s
ByteWrite(s0, x) ==
  LET s == IF Len(s0.buf) = MaxLit \/ s0.run = MaxRun THEN ByteFlush(s0) ELSE s0
      n == Len(s.buf)
  IN IF s.run > 0
     THEN IF x = s.buf[1] THEN [s EXCEPT !.run = @ + 1]
          ELSE LET f == ByteFlush(s) IN [f EXCEPT !.buf = <<x>>]
     ELSE IF n >= MinRun - 1 /\ \A i \in 0..(MinRun - 2) : s.buf[n - i] = x
     THEN LET f == ByteFlush([s EXCEPT !.buf = SubSeq(@, 1, n - (MinRun - 1))])
          IN [f EXCEPT !.run = MinRun, !.buf = <<x>>]
     ELSE [s EXCEPT !.buf = Append(@, x)]
BytePos(s) == <<Len(s.out), IF s.run > 0 THEN s.run ELSE Len(s.buf)>>
BytePending(s) == IF s.run > 0 THEN [i \in 1..s.run |-> s.buf[1]] ELSE s.buf

(* ---- integers: int_rle_v1.rs (MinRun = 3) ---- *)
IntInit == [out |-> <<>>, buf |-> <<>>, run |-> 0, last |-> 0, delta |-> 0]
(* x - y modulo W as a number around 0 *)
Diff(x, y) == LET d == (x - y) % W IN IF 2 * d >= W THEN d - W ELSE d
IntFlush(s) ==
  IF s.run > 0 THEN [s EXCEPT !.out = Append(@, Run(s.run, s.buf[1], s.delta)), !.buf = <<>>, !.run = 0]
  ELSE IF s.buf # <<>> THEN [s EXCEPT !.out = Append(@, Lit(s.buf)), !.buf = <<>>]
  ELSE s
IntWrite(s0, x) ==
  LET s == IF Len(s0.buf) = MaxLit \/ s0.run = MaxRun THEN IntFlush(s0) ELSE s0
      n == Len(s.buf)
  IN IF s.run > 0
     THEN IF Diff(x, s.last) = s.delta THEN [s EXCEPT !.run = @ + 1, !.last = x]
          ELSE LET f == IntFlush(s) IN [f EXCEPT !.buf = <<x>>, !.last = x]
     ELSE IF n = 0 THEN [s EXCEPT !.buf = <<x>>]
     ELSE LET d == Diff(x, s.buf[n]) IN
          IF n >= 2 /\ d = s.delta /\ d \in (-DNeg)..DHi
          THEN LET y == s.buf[n - 1]
                   f == IntFlush([s EXCEPT !.buf = SubSeq(@, 1, n - 2)])
               IN [f EXCEPT !.run = 3, !.buf = <<y>>, !.last = x]
          ELSE [s EXCEPT !.buf = Append(@, x), !.delta = d, !.last = x]
IntPos(s) == <<Len(s.out), IF s.run > 0 THEN s.run ELSE Len(s.buf)>>
IntPending(s) == IF s.run > 0 THEN [i \in 1..s.run |-> (s.buf[1] + (i - 1) * s.delta) % W] ELSE s.buf

(* ---- bits: boolean_rle.rs, with BW bits per byte ---- *)
CONSTANT BW
BoolInit == [inner |-> ByteInit, buf |-> 0, cnt |-> 0]
BoolWrite(s, b) ==
  LET v == (s.buf * 2 + b) % (2^BW) IN
  IF s.cnt = BW - 1 THEN [inner |-> ByteWrite(s.inner, v), buf |-> v, cnt |-> 0]
  ELSE [s EXCEPT !.buf = v, !.cnt = @ + 1]
BoolFlush(s) ==
  ByteFlush(IF s.cnt > 0 THEN ByteWrite(s.inner, (s.buf * 2^(BW - s.cnt)) % (2^BW)) ELSE s.inner)
BoolPos(s) == <<BytePos(s.inner), s.cnt>>
BitsOf(v) == [i \in 1..(BW * Len(v)) |->
                 (v[((i - 1) \div BW) + 1] \div 2^(BW - 1 - ((i - 1) % BW))) % 2]
=============================================================================
