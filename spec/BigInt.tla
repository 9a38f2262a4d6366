------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Arbitrary precision integers for TLC, whose native integers are 32 bit. *)
(* A magnitude is a little-endian sequence of limbs in base 2^21 (three    *)
(* 7-bit varint groups) with no leading (most significant) zero limb; the  *)
(* magnitude of 0 is <<>>.  An integer ("Num") is <<sign>> \o magnitude    *)
(* with sign -1, 0 or 1, so that equal integers are equal TLA+ values.     *)
(* MC_Format.tla checks these operators against native arithmetic.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

BB == 2097152                       \* limb base, 2^21

RECURSIVE MagTrim(_)
MagTrim(m) == IF m = <<>> THEN m
              ELSE IF m[Len(m)] # 0 THEN m
              ELSE MagTrim(SubSeq(m, 1, Len(m) - 1))

LOCAL At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
LOCAL MaxI(a, b) == IF a >= b THEN a ELSE b

(* ---- magnitude arithmetic ---- *)
RECURSIVE MagAddR(_, _, _, _, _)
MagAddR(a, b, i, c, acc) ==
  IF i > Len(a) /\ i > Len(b)
  THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET t == At(a, i) + At(b, i) + c
       IN MagAddR(a, b, i + 1, t \div BB, Append(acc, t % BB))
MagAdd(a, b) == MagAddR(a, b, 1, 0, <<>>)

RECURSIVE MagSubR(_, _, _, _, _)    \* requires a >= b
MagSubR(a, b, i, c, acc) ==
  IF i > Len(a) THEN MagTrim(acc)
  ELSE LET t == a[i] - At(b, i) - c
       IN MagSubR(a, b, i + 1, IF t < 0 THEN 1 ELSE 0,
                  Append(acc, IF t < 0 THEN t + BB ELSE t))
MagSub(a, b) == MagSubR(a, b, 1, 0, <<>>)

RECURSIVE MagCmpR(_, _, _)
MagCmpR(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE MagCmpR(a, b, i - 1)
MagCmp(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1
                ELSE MagCmpR(a, b, Len(a))

(* m * k + c, for 0 <= k <= 1000 and 0 <= c < BB *)
RECURSIVE MagMulR(_, _, _, _, _)
MagMulR(m, k, c, i, acc) ==
  IF i > Len(m) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET t == m[i] * k + c
       IN MagMulR(m, k, t \div BB, i + 1, Append(acc, t % BB))
MagMulAdd(m, k, c) == MagTrim(MagMulR(m, k, c, 1, <<>>))

(* m \div 2 *)
MagHalf(m) ==
  MagTrim([i \in 1..Len(m) |->
     (m[i] \div 2) + (IF i < Len(m) THEN (m[i + 1] % 2) * (BB \div 2) ELSE 0)])

RECURSIVE MagPow2(_)
MagPow2(k) == IF k < 21 THEN <<2^k>> ELSE <<0>> \o MagPow2(k - 21)

(* ---- signed ---- *)
Zero == <<0>>
MkNum(s, m) == IF m = <<>> THEN Zero ELSE <<s>> \o m
Sgn(x) == x[1]
Mag(x) == Tail(x)
Neg(x) == IF x[1] = 0 THEN x ELSE <<-x[1]>> \o Tail(x)
Abs(x) == IF x[1] = 0 THEN x ELSE <<1>> \o Tail(x)

(* native -> Num; |n| < 2^31 *)
NumOf(n) == IF n = 0 THEN Zero
            ELSE LET a == IF n < 0 THEN -n ELSE n
                     s == IF n < 0 THEN -1 ELSE 1
                 IN IF a < BB THEN <<s, a>> ELSE <<s, a % BB, a \div BB>>

Add(x, y) ==
  IF x[1] = 0 THEN y
  ELSE IF y[1] = 0 THEN x
  ELSE IF Len(x) = 2 /\ Len(y) = 2 THEN NumOf(x[1] * x[2] + y[1] * y[2])
  ELSE IF x[1] = y[1] THEN MkNum(x[1], MagAdd(Tail(x), Tail(y)))
  ELSE LET c == MagCmp(Tail(x), Tail(y))
       IN IF c = 0 THEN Zero
          ELSE IF c > 0 THEN MkNum(x[1], MagSub(Tail(x), Tail(y)))
          ELSE MkNum(y[1], MagSub(Tail(y), Tail(x)))
Sub(x, y) == Add(x, Neg(y))

Cmp(x, y) == IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
             ELSE IF x[1] = 0 THEN 0
             ELSE x[1] * MagCmp(Tail(x), Tail(y))
Lt(x, y)  == Cmp(x, y) < 0
Leq(x, y) == Cmp(x, y) <= 0
MinN(x, y) == IF Lt(y, x) THEN y ELSE x
MaxN(x, y) == IF Lt(x, y) THEN y ELSE x
MulSmall(x, k) == MkNum(x[1], MagMulAdd(Tail(x), k, 0))    \* 0 < k <= 1000

P63  == MagPow2(63)
P64  == MagPow2(64)
P127 == MagPow2(127)
FitsI64(x) == LET m == Tail(x) IN
   \/ Len(m) < 4
   \/ MagCmp(m, P63) < 0
   \/ x[1] < 0 /\ m = P63
FitsU64(x) == x[1] >= 0 /\ (Len(x) < 5 \/ MagCmp(Tail(x), P64) < 0)
FitsI128(x) == LET m == Tail(x) IN
   \/ Len(m) < 7
   \/ MagCmp(m, P127) < 0
   \/ x[1] < 0 /\ m = P127
(* reduction into the 64-bit two's complement / unsigned range, for values
   at most 2^64 outside of it *)
WrapI64(x) == IF FitsI64(x) THEN x
              ELSE IF x[1] > 0 THEN Sub(x, <<1>> \o P64) ELSE Add(x, <<1>> \o P64)
WrapU64(x) == IF FitsU64(x) THEN x
              ELSE IF x[1] > 0 THEN Sub(x, <<1>> \o P64) ELSE Add(x, <<1>> \o P64)

(* zig-zag: 0,1,2,3,4.. -> 0,-1,1,-2,2.. on magnitudes *)
UnZigZag(m) == IF m = <<>> THEN Zero
               ELSE IF m[1] % 2 = 0 THEN MkNum(1, MagHalf(m))
               ELSE MkNum(-1, MagAdd(MagHalf(m), <<1>>))
=============================================================================
