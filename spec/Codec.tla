------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Decoders of the ORC v0 value encodings: byte run-length, bit packing,   *)
(* integer run-length (version 1), varints, nanoseconds.  Each decoder is  *)
(* total; ok = FALSE marks a stream that does not end on a group boundary. *)
(* A group table entry <<o, i>> says that a group starts at byte offset o  *)
(* and that its first value has index i (both from 0).                     *)
(***************************************************************************)
EXTENDS Proto

S8(b) == IF b < 128 THEN b ELSE b - 256

RunVals(base, delta, n, signed) ==
  IF delta = 0 THEN [i \in 1..n |-> base]
  ELSE LET d == NumOf(delta)
           W(x) == IF signed THEN WrapI64(x) ELSE WrapU64(x)
       IN FoldLeft(LAMBDA acc, i : Append(acc, W(Add(acc[i], d))), <<base>>, [i \in 1..(n - 1) |-> i])

(* m: 0 = control byte expected, 1 = run delta, 2 = run base, 3 = literal;
   k = values to come, o = offset of the byte read *)
IntRle(bs, signed) ==
  LET init == [m |-> 0, k |-> 0, d |-> 0, g |-> <<>>, o |-> 0, v |-> <<>>, t |-> <<>>, ok |-> TRUE]
      Val(g) == LET mag == GroupsToMag(g) IN IF signed THEN UnZigZag(mag) ELSE MkNum(1, mag)
      One(b) == IF signed
                THEN (IF b = 0 THEN Zero ELSE IF b % 2 = 0 THEN <<1, b \div 2>> ELSE <<-1, (b + 1) \div 2>>)
                ELSE (IF b = 0 THEN Zero ELSE <<1, b>>)
      Done(s, b) == IF s.g = <<>> THEN One(b) ELSE Val(Append(s.g, b))
      Fits(x) == IF signed THEN FitsI64(x) ELSE FitsU64(x)
      step(s, b) ==
        CASE s.m = 0 ->
               IF b < 128 THEN [s EXCEPT !.m = 1, !.k = b + 3, !.o = @ + 1,
                                         !.t = Append(@, <<s.o, Len(s.v)>>)]
               ELSE [s EXCEPT !.m = 3, !.k = 256 - b, !.o = @ + 1,
                              !.t = Append(@, <<s.o, Len(s.v)>>)]
          [] s.m = 1 -> [s EXCEPT !.m = 2, !.d = S8(b), !.o = @ + 1]
          [] s.m = 2 ->
               IF b >= 128 THEN [s EXCEPT !.g = Append(@, b - 128), !.o = @ + 1]
               ELSE LET x == Done(s, b) IN
                    [s EXCEPT !.m = 0, !.g = <<>>, !.o = @ + 1, !.ok = @ /\ Fits(x),
                              !.v = @ \o RunVals(x, s.d, s.k, signed)]
          [] OTHER ->
               IF b >= 128 THEN [s EXCEPT !.g = Append(@, b - 128), !.o = @ + 1]
               ELSE LET x == Done(s, b) IN
                    [s EXCEPT !.m = IF s.k = 1 THEN 0 ELSE 3, !.k = @ - 1, !.g = <<>>, !.o = @ + 1,
                              !.ok = @ /\ Fits(x), !.v = Append(@, x)]
      r == FoldLeft(step, init, bs)
  IN [ok |-> r.ok /\ r.m = 0, v |-> r.v, t |-> r.t]

ByteRle(bs) ==
  LET init == [m |-> 0, k |-> 0, o |-> 0, v |-> <<>>, t |-> <<>>]
      step(s, b) ==
        CASE s.m = 0 -> [s EXCEPT !.m = IF b < 128 THEN 1 ELSE 2, !.k = IF b < 128 THEN b + 3 ELSE 256 - b,
                                  !.o = @ + 1, !.t = Append(@, <<s.o, Len(s.v)>>)]
          [] s.m = 1 -> [s EXCEPT !.m = 0, !.o = @ + 1, !.v = @ \o [i \in 1..s.k |-> b]]
          [] OTHER -> [s EXCEPT !.m = IF s.k = 1 THEN 0 ELSE 2, !.k = @ - 1, !.o = @ + 1, !.v = Append(@, b)]
      r == FoldLeft(step, init, bs)
  IN [ok |-> r.m = 0, v |-> r.v, t |-> r.t]

Pow2(k) == <<1, 2, 4, 8, 16, 32, 64, 128>>[k + 1]
(* i-th bit (from 0) of a byte sequence, most significant first *)
BitAt(v, i) == (v[(i \div 8) + 1] \div Pow2(7 - (i % 8))) % 2 = 1

(* signed varints back to back (decimal values): values and byte offsets *)
SVarints(bs) ==
  LET init == [g |-> <<>>, o |-> 0, v |-> <<>>, t |-> <<>>, s |-> 0, ok |-> TRUE]
      step(s, b) ==
        IF b >= 128 THEN [s EXCEPT !.g = Append(@, b - 128), !.o = @ + 1]
        ELSE LET x == UnZigZag(GroupsToMag(Append(s.g, b))) IN
             [s EXCEPT !.g = <<>>, !.o = @ + 1, !.s = s.o + 1, !.v = Append(@, x),
                       !.t = Append(@, <<s.s, Len(s.v)>>), !.ok = @ /\ FitsI128(x)]
      r == FoldLeft(step, init, bs)
  IN [ok |-> r.ok /\ r.g = <<>>, v |-> r.v, t |-> r.t]

Pow10(k) == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>[k + 1]
(* stored nanoseconds (Num) -> native, -1 if out of range *)
Nanos(x) ==
  LET z    == IF x = Zero THEN 0 ELSE x[2] % 8
      base == ToNat(MkNum(1, MagHalf(MagHalf(MagHalf(Mag(x))))))
  IN IF base < 0 THEN -1
     ELSE IF z = 0 THEN (IF base > 999999999 THEN -1 ELSE base)
     ELSE IF base > 999999999 \div Pow10(z + 1) THEN -1
     ELSE base * Pow10(z + 1)

(* 16-bit etc. little endian is not needed: floats are compared as raw bytes *)
Slices(bs, w) == [i \in 1..(Len(bs) \div w) |-> SubSeq(bs, (i - 1) * w + 1, i * w)]
=============================================================================
