----------------------------- MODULE MC_Format -----------------------------
(***************************************************************************)
(* The oracle itself.  The ASSUMEs hold the examples that the ORC and      *)
(* Snappy format specifications publish, and native arithmetic against     *)
(* BigInt.  The state machine enumerates streams of value groups, writes   *)
(* them down by the rules of the format and has the reader read them back; *)
(* a stream cut short anywhere but between two groups must be refused.     *)
(***************************************************************************)
EXTENDS Reader

N2(s) == [i \in 1..Len(s) |-> NumOf(s[i])]
Rep(n, x) == [i \in 1..n |-> x]
Is(r, v) == r.ok /\ r.v = v

(* ---- ORC specification v0: byte run length encoding ---- *)
ASSUME Is(ByteRle(<<97, 0>>), Rep(100, 0))
ASSUME Is(ByteRle(<<254, 68, 69>>), <<68, 69>>)
ASSUME ~ByteRle(<<254, 68>>).ok /\ ~ByteRle(<<97>>).ok
(* boolean: 0xff 0x80 is one literal byte: true and seven falses *)
ASSUME LET r == ByteRle(<<255, 128>>) IN r.ok /\ [i \in 1..8 |-> BitAt(r.v, i - 1)] = <<TRUE>> \o Rep(7, FALSE)
(* ---- integer run length encoding, version 1 ---- *)
ASSUME Is(IntRle(<<97, 0, 7>>, FALSE), Rep(100, NumOf(7)))
ASSUME Is(IntRle(<<97, 255, 100>>, FALSE), [i \in 1..100 |-> NumOf(101 - i)])
ASSUME Is(IntRle(<<251, 2, 3, 6, 7, 11>>, FALSE), N2(<<2, 3, 6, 7, 11>>))
ASSUME Is(IntRle(<<251, 2, 3, 6, 7, 11>>, TRUE), N2(<<1, -2, 3, -4, -6>>))
(* base 128 varints *)
ASSUME Is(IntRle(<<250, 0, 1, 127, 128, 1, 129, 1, 255, 127>>, FALSE), N2(<<0, 1, 127, 128, 129, 16383>>))
ASSUME Is(IntRle(<<254, 128, 128, 1, 129, 128, 1>>, FALSE), N2(<<16384, 16385>>))
ASSUME Is(IntRle(<<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>, FALSE), <<Sub(<<1>> \o P64, NumOf(1))>>)
ASSUME Is(IntRle(<<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>, TRUE), <<Neg(<<1>> \o P63)>>)
ASSUME ~IntRle(<<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 2>>, FALSE).ok
(* runs wrap around 64 bits *)
ASSUME Is(IntRle(<<0, 1, 254, 255, 255, 255, 255, 255, 255, 255, 255, 1>>, TRUE),
          <<Sub(<<1>> \o P63, NumOf(1)), Neg(<<1>> \o P63), Add(Neg(<<1>> \o P63), NumOf(1))>>)
(* decimals: zig-zag varints without limit of 64 bits *)
ASSUME Is(SVarints(<<0, 1, 2, 128, 2>>), N2(<<0, -1, 1, 128>>))
(* ---- nanoseconds: 1000ns is 0x0a, 100000ns is 0x0c ---- *)
ASSUME Nanos(NumOf(10)) = 1000 /\ Nanos(NumOf(12)) = 100000 /\ Nanos(Zero) = 0
ASSUME Nanos(NumOf(15)) = 100000000 /\ Nanos(NumOf(80)) = 10
ASSUME Nanos(MulSmall(NumOf(999999999), 8)) = 999999999 /\ Nanos(MulSmall(NumOf(1000000000), 8)) = -1
(* ---- compression: a header of 100 000 compressed bytes is 0x40 0x0d 0x03,
   five original bytes are 0x0b 0x00 0x00 ---- *)
ASSUME 64 + 256 * 13 + 65536 * 3 = 2 * 100000
ASSUME LET r == Section(<<11, 0, 0, 1, 2, 3, 4, 5>>, 0, 8, CSnappy, <<>>) IN
       r.ok /\ r.data = <<1, 2, 3, 4, 5>> /\ r.chunks = <<[s |-> 0, n |-> 5, orig |-> TRUE, u |-> 0, ul |-> 5]>>
ASSUME ~Section(<<11, 0, 0, 1, 2, 3, 4>>, 0, 7, CSnappy, <<>>).ok
ASSUME ~Section(<<11, 0, 0, 1, 2, 3, 4, 5, 9>>, 0, 9, CSnappy, <<>>).ok
(* ---- Snappy: literals, and copies of all three forms; copies may overlap ---- *)
ASSUME Unsnap(<<5, 16, 1, 2, 3, 4, 5>>) = [ok |-> TRUE, d |-> <<1, 2, 3, 4, 5>>]
ASSUME Unsnap(<<10, 4, 1, 2, 17, 2>>) = [ok |-> TRUE, d |-> <<1, 2, 1, 2, 1, 2, 1, 2, 1, 2>>]
ASSUME Unsnap(<<6, 4, 1, 2, 14, 2, 0>>).d = <<1, 2, 1, 2, 1, 2>>
ASSUME Unsnap(<<6, 4, 1, 2, 15, 2, 0, 0, 0>>) = [ok |-> TRUE, d |-> <<1, 2, 1, 2, 1, 2>>]
ASSUME ~Unsnap(<<9, 4, 1, 2, 17, 2>>).ok /\ ~Unsnap(<<6, 4, 1, 2, 14, 3, 0>>).ok
ASSUME Unsnap(<<61, 240, 60>> \o Rep(61, 9)) = [ok |-> TRUE, d |-> Rep(61, 9)]
(* ---- protobuf: field 1 = 150; field 2 = "testing" (published examples) ---- *)
ASSUME Parse(<<8, 150, 1>>) = [ok |-> TRUE, f |-> <<<<1, 0, NumOf(150)>>>>]
ASSUME Parse(<<18, 7, 116, 101, 115, 116, 105, 110, 103>>).f = <<<<2, 2, <<116, 101, 115, 116, 105, 110, 103>>>>>>
ASSUME ~Parse(<<8>>).ok /\ ~Parse(<<18, 7, 116>>).ok
(* packed: 3, 270, 86942 (published example) *)
ASSUME Varints(<<3, 142, 2, 158, 167, 5>>) = [ok |-> TRUE, v |-> N2(<<3, 270, 86942>>)]
(* ---- statistics ---- *)
ASSUME DecText(<<45, 49, 46, 53>>, 3) = [ok |-> TRUE, v |-> NumOf(-1500)]          \* -1.5
ASSUME ~DecText(<<49, 46, 53>>, 0).ok /\ ~DecText(<<46, 53>>, 2).ok /\ DecText(<<48>>, 38).v = Zero
ASSUME Millis(<<NumOf(0), 1999999>>) = Add(MulSmall(NumOf(1420070400), 1000), NumOf(1))
ASSUME Millis(<<NumOf(-1420070400), 0>>) = Zero
ASSUME Millis(<<NumOf(-1420070401), 999000000>>) = NumOf(-1)                         \* one millisecond before 1970
D1 == <<0, 0, 0, 0, 0, 0, 240, 63>>          \* 1.0
DM2 == <<0, 0, 0, 0, 0, 0, 0, 192>>          \* -2.0
DZ == <<0, 0, 0, 0, 0, 0, 0, 128>>           \* -0.0
ASSUME DLess(DM2, D1) /\ ~DLess(D1, DM2) /\ DEq(DZ, Rep(8, 0)) /\ DLess(DZ, D1)
ASSUME DScaled(D1) = [ok |-> TRUE, v |-> NumOf(1024)] /\ DScaled(DM2).v = NumOf(-2048)
ASSUME DIsNaN(<<1, 0, 0, 0, 0, 0, 240, 127>>) /\ ~DIsNaN(<<0, 0, 0, 0, 0, 0, 240, 127>>)
ASSUME LexLess(<<>>, <<0>>) /\ LexLess(<<1, 2>>, <<1, 3>>) /\ ~LexLess(<<255>>, <<1, 255>>) /\ LexLess(<<127>>, <<128>>)
(* ---- BigInt against native arithmetic ---- *)
Small == {0, 1, -1, 2, 127, 128, 2097151, -2097151, 2097152, -2097152, 2097153, 500000000, -500000000, 1000000000}
ASSUME \A a, b \in Small : /\ Add(NumOf(a), NumOf(b)) = NumOf(a + b)
                           /\ Sub(NumOf(a), NumOf(b)) = NumOf(a - b)
                           /\ Lt(NumOf(a), NumOf(b)) = (a < b)
                           /\ Leq(NumOf(a), NumOf(b)) = (a <= b)
ASSUME \A a \in {0, 1, 5, 2097151, 2097152, 2000000} : \A k \in {1, 2, 7, 1000} : MulSmall(NumOf(a), k) = NumOf(a * k)
ASSUME \A a \in Small : a >= 0 => UnZigZag(Mag(NumOf(a))) = NumOf(IF a % 2 = 0 THEN a \div 2 ELSE -((a + 1) \div 2))
ASSUME MagHalf(P64) = P63 /\ MagAdd(P63, P63) = P64 /\ MagSub(P64, P63) = P63
ASSUME FitsI64(Neg(<<1>> \o P63)) /\ ~FitsI64(<<1>> \o P63) /\ ~FitsI64(Sub(Neg(<<1>> \o P63), NumOf(1)))
ASSUME FitsU64(Sub(<<1>> \o P64, NumOf(1))) /\ ~FitsU64(<<1>> \o P64) /\ ~FitsU64(NumOf(-1))
ASSUME FitsI128(Neg(<<1>> \o P127)) /\ ~FitsI128(<<1>> \o P127)

(* ---- the state machine ---- *)
CONSTANTS MaxGroups, Signed,
          Wrong      \* TRUE: runs are written with one value less (TLC must reject)
VARIABLE gs
VarintOf(x) == IF x < 128 THEN <<x>> ELSE IF x < 16384 THEN <<128 + (x % 128), x \div 128>>
               ELSE <<128 + (x % 128), 128 + ((x \div 128) % 128), x \div 16384>>
Stored(x) == VarintOf(IF ~Signed THEN x ELSE IF x >= 0 THEN 2 * x ELSE -2 * x - 1)
Bases == IF Signed THEN {0, -1, 63, 64, -64, -65, 8192} ELSE {0, 127, 128, 16383, 16384, 400}
Deltas == {0, 1, -1, 127, -128}
Lits == {<<b>> : b \in Bases} \cup {<<b, 5, b>> : b \in Bases} \cup {[i \in 1..128 |-> i]}
Groups == {g \in [n : {3, 130}, b : Bases, d : Deltas, l : {<<>>}] : Signed \/ g.b + g.d * (g.n - 1) >= 0}
          \cup [n : {0}, b : {0}, d : {0}, l : Lits]
Flatten(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
RunLen(g) == IF Wrong /\ g.n > 3 THEN g.n - 4 ELSE g.n - 3
Write(g) == IF g.n = 0 THEN <<256 - Len(g.l)>> \o Flatten([i \in 1..Len(g.l) |-> Stored(g.l[i])])
            ELSE <<RunLen(g), g.d % 256>> \o Stored(g.b)
Mean(g) == IF g.n = 0 THEN g.l ELSE [i \in 1..g.n |-> g.b + (i - 1) * g.d]
(* the same group as bytes *)
WriteB(g) == IF g.n = 0 THEN <<256 - Len(g.l)>> \o [i \in 1..Len(g.l) |-> g.l[i] % 256] ELSE <<g.n - 3, g.b % 256>>
MeanB(g) == IF g.n = 0 THEN [i \in 1..Len(g.l) |-> g.l[i] % 256] ELSE [i \in 1..g.n |-> g.b % 256]
Table(w(_), m(_)) == FoldLeft(LAMBDA a, g : [o |-> a.o + Len(w(g)), i |-> a.i + Len(m(g)), t |-> Append(a.t, <<a.o, a.i>>)],
                              [o |-> 0, i |-> 0, t |-> <<>>], gs).t
Init == gs = <<>>
Next == Len(gs) < MaxGroups /\ \E g \in Groups : gs' = Append(gs, g)

All(w(_)) == Flatten([i \in 1..Len(gs) |-> w(gs[i])])
ReadsBack ==
  /\ LET r == IntRle(All(Write), Signed) IN
     Is(r, N2(All(Mean))) /\ r.t = Table(Write, Mean)
  /\ LET r == ByteRle(All(WriteB)) IN Is(r, All(MeanB)) /\ r.t = Table(WriteB, MeanB)
CutShort ==
  gs # <<>> =>
  LET w  == All(Write)
      wb == All(WriteB)
      l  == Len(Write(gs[Len(gs)]))
      lb == Len(WriteB(gs[Len(gs)]))
  IN /\ \A k \in {1, l - 1} : ~IntRle(SubSeq(w, 1, Len(w) - k), Signed).ok
     /\ \A k \in {1, lb - 1} : ~ByteRle(SubSeq(wb, 1, Len(wb) - k)).ok
=============================================================================
