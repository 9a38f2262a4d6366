------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* What a column statistics message says about a sequence of cells.        *)
(***************************************************************************)
EXTENDS Chunks, Schema

(* ---- orders ---- *)
(* first place in i..j where a and b differ; they do differ there *)
RECURSIVE Differ(_, _, _, _)
Differ(a, b, i, j) ==
  IF i = j THEN i
  ELSE LET m == (i + j) \div 2
       IN IF SubSeq(a, i, m) = SubSeq(b, i, m) THEN Differ(a, b, m + 1, j) ELSE Differ(a, b, i, m)
LexLess(a, b) ==
  LET m == Mn(Len(a), Len(b))
      x == SubSeq(a, 1, m)
      y == SubSeq(b, 1, m)
  IN IF x = y THEN Len(a) < Len(b)
     ELSE LET d == Differ(x, y, 1, m) IN a[d] < b[d]

(* little-endian IEEE doubles as 8 bytes *)
DMag(b) == <<b[8] % 128, b[7], b[6], b[5], b[4], b[3], b[2], b[1]>>
DNeg(b) == b[8] >= 128
DIsNaN(b) == LexLess(<<127, 240, 0, 0, 0, 0, 0, 0>>, DMag(b))
DIsInf(b) == DMag(b) = <<127, 240, 0, 0, 0, 0, 0, 0>>
DIsZero(b) == DMag(b) = <<0, 0, 0, 0, 0, 0, 0, 0>>
DLess(a, b) == IF DIsZero(a) /\ DIsZero(b) THEN FALSE
               ELSE IF DNeg(a) # DNeg(b) THEN DNeg(a)
               ELSE IF DNeg(a) THEN LexLess(DMag(b), DMag(a))
               ELSE LexLess(DMag(a), DMag(b))
DEq(a, b) == a = b \/ (DIsZero(a) /\ DIsZero(b))

(* the double times 2^10 as an integer, if it is one below 2^52 *)
RECURSIVE Shr(_, _)
Shr(m, k) == IF k = 0 THEN [ok |-> TRUE, m |-> m]
             ELSE IF m = <<>> THEN [ok |-> TRUE, m |-> m]
             ELSE IF k >= 21 /\ m[1] = 0 THEN Shr(Tail(m), k - 21)
             ELSE IF m[1] % 2 = 1 THEN [ok |-> FALSE, m |-> m]
             ELSE Shr(MagHalf(m), k - 1)
DScaled(b) ==
  LET e   == (b[8] % 128) * 16 + (b[7] \div 16)
      f   == MagTrim(<<b[1] + 256 * b[2] + 65536 * (b[3] % 32),
                       (b[3] \div 32) + 8 * b[4] + 2048 * b[5] + 524288 * (b[6] % 4),
                       (b[6] \div 4) + 64 * (b[7] % 16) + 1024>>)   \* with the hidden bit 2^52
      sh  == 1065 - e
  IN IF DIsZero(b) THEN [ok |-> TRUE, v |-> Zero]
     ELSE IF sh < 0 \/ sh > 52 THEN [ok |-> FALSE, v |-> Zero]
     ELSE LET r == Shr(f, sh) IN [ok |-> r.ok, v |-> MkNum(IF DNeg(b) THEN -1 ELSE 1, r.m)]

(* decimal text -> unscaled value at scale s *)
DecText(t, s) ==
  LET neg  == Len(t) > 0 /\ t[1] = 45
      u    == IF neg THEN Tail(t) ELSE t
      dots == {i \in 1..Len(u) : u[i] = 46}
      dot  == IF dots = {} THEN Len(u) + 1 ELSE CHOOSE i \in dots : TRUE
      frac == IF dots = {} THEN <<>> ELSE SubSeq(u, dot + 1, Len(u))
      digs == SubSeq(u, 1, dot - 1) \o frac \o [i \in 1..Mx(0, s - Len(frac)) |-> 48]
      ok   == /\ Cardinality(dots) <= 1
              /\ dot > 1
              /\ Len(frac) <= s
              /\ \A i \in 1..Len(digs) : digs[i] \in 48..57
      mag  == FoldLeft(LAMBDA a, d : MagMulAdd(a, 10, d - 48), <<>>, digs)
  IN IF ~ok THEN [ok |-> FALSE, v |-> Zero]
     ELSE [ok |-> TRUE, v |-> MkNum(IF neg THEN -1 ELSE 1, mag)]

(* ---- folds ---- *)
MinBy(less(_, _), s) == FoldLeft(LAMBDA a, x : IF less(x, a) THEN x ELSE a, s[1], s)
MaxBy(less(_, _), s) == FoldLeft(LAMBDA a, x : IF less(a, x) THEN x ELSE a, s[1], s)
SumN(s) == FoldLeft(LAMBDA a, x : Add(a, x), Zero, s)
SumAbs(s) == FoldLeft(LAMBDA a, x : Add(a, Abs(x)), Zero, s)
SumLen(s) == FoldLeft(LAMBDA a, x : a + Len(x), 0, s)

UnixEpoch == NumOf(1420070400)
(* timestamp cell <<seconds since 2015, nanos>> -> milliseconds since 1970 *)
Millis(v) == Add(MulSmall(Add(v[1], UnixEpoch), 1000), NumOf(v[2] \div 1000000))

StatField(k) == CASE k = "BOOLEAN" -> 5
                  [] k \in {"SHORT", "INT", "LONG"} -> 2
                  [] k = "DATE" -> 7
                  [] k \in {"FLOAT", "DOUBLE"} -> 3
                  [] k = "TIMESTAMP" -> 9
                  [] k = "DECIMAL" -> 6
                  [] k \in TextKinds -> 4
                  [] k = "BINARY" -> 8
                  [] OTHER -> 0

(* number of non-null values and null flag *)
CountsOk(cells, st) ==
  LET m == FoldLeft(LAMBDA a, x : IF x = <<>> THEN a ELSE a + 1, 0, cells) IN
  st.ok /\ st.n = NumOf(m)
NullOk(cells, st) ==
  LET m == FoldLeft(LAMBDA a, x : IF x = <<>> THEN a ELSE a + 1, 0, cells) IN
  st.ok /\ (st.null <=> m # Len(cells))

Bounds(less(_, _), vs, st, eq(_, _)) ==
  /\ st.min # <<>> /\ st.max # <<>>
  /\ eq(st.min[1], MinBy(less, vs)) /\ eq(st.max[1], MaxBy(less, vs))
Same(a, b) == a = b

(* the type-specific part, for the non-null values vs *)
ValuesOk(col, vs, st) ==
  LET k == col.k
      f == StatField(k)
  IN IF f = 0 THEN st.kinds = {}
     ELSE IF vs = <<>>
     THEN /\ st.kinds \subseteq {f}
          /\ st.min = <<>> /\ st.max = <<>>
          /\ st.sum = <<>> \/ CASE f \in {2, 4, 8} -> st.sum[1] = Zero
                                [] f = 3 -> DIsZero(st.sum[1])
                                [] f = 6 -> DecText(st.sum[1], col.s) = [ok |-> TRUE, v |-> Zero]
                                [] OTHER -> TRUE
          /\ \A i \in 1..Len(st.counts) : st.counts[i] = 0
     ELSE /\ st.kinds = {f}
          /\ CASE f = 5 ->
                    /\ Len(st.counts) >= 1
                    /\ st.counts[1] = FoldLeft(LAMBDA a, x : a + x, 0, vs)
               [] f = 2 ->
                    /\ Bounds(Lt, vs, st, Same)
                    /\ IF st.sum = <<>> THEN ~FitsI64(SumAbs(vs)) ELSE st.sum[1] = SumN(vs)
               [] f = 7 -> Bounds(Lt, vs, st, Same)
               [] f = 9 -> Bounds(Lt, TLCEval([i \in 1..Len(vs) |-> Millis(vs[i])]), st, Same)
               [] f = 3 ->
                    LET ds == TLCEval([i \in 1..Len(vs) |-> vs[i][2]])
                        sc == TLCEval([i \in 1..Len(vs) |-> DScaled(ds[i])])
                        nan == \E i \in 1..Len(vs) : DIsNaN(ds[i])
                        exact == ~nan /\ (\A i \in 1..Len(vs) : sc[i].ok)
                        tot == SumAbs([i \in 1..Len(vs) |-> sc[i].v])
                    IN /\ nan \/ Bounds(DLess, ds, st, DEq)
                       /\ st.sum # <<>>
                       /\ (exact /\ Len(tot) <= 3) =>
                             DScaled(st.sum[1]) = [ok |-> TRUE, v |-> SumN([i \in 1..Len(vs) |-> sc[i].v])]
               [] f = 6 ->
                    LET Val(o) == LET r == DecText(o[1], col.s) IN IF r.ok THEN <<r.v>> ELSE <<>>
                        mn == IF st.min = <<>> THEN <<>> ELSE Val(st.min)
                        mx == IF st.max = <<>> THEN <<>> ELSE Val(st.max)
                    IN /\ mn = <<MinBy(Lt, vs)>>
                       /\ mx = <<MaxBy(Lt, vs)>>
                       /\ IF st.sum = <<>> THEN ~FitsI128(SumAbs(vs)) ELSE Val(st.sum) = <<SumN(vs)>>
               [] f = 4 ->
                    /\ Bounds(LexLess, vs, st, Same)
                    /\ st.sum = <<NumOf(SumLen(vs))>>
               [] f = 8 -> st.sum = <<NumOf(SumLen(vs))>>

Values(cells) == LET s == NonNull(cells) IN TLCEval([i \in 1..Len(s) |-> s[i][1]])
StatOk(col, cells, st) ==
  /\ CountsOk(cells, st)
  /\ NullOk(cells, st)
  /\ ValuesOk(col, Values(cells), st)
=============================================================================
