------------------------------- MODULE Proto -------------------------------
(***************************************************************************)
(* The protobuf wire format, and the messages of orc_proto.proto that the  *)
(* library writes.  Everything here is total: bytes that are not a         *)
(* well-formed message parse to a value marked ok = FALSE.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, BigInt, TLC

Mx(a, b) == IF a >= b THEN a ELSE b
Mn(a, b) == IF a <= b THEN a ELSE b

(* seven-bit groups, least significant first -> magnitude *)
GroupsToMag(g) ==
  LET n == Len(g)
      A(i) == IF i <= n THEN g[i] ELSE 0
  IN MagTrim([k \in 1..((n + 2) \div 3) |-> A(3*k-2) + A(3*k-1) * 128 + A(3*k) * 16384])

(* index of the last byte of the varint starting at i, 0 if there is none within
   `lim` bytes *)
RECURSIVE VarEnd(_, _, _)
VarEnd(bs, i, lim) == IF lim = 0 \/ i > Len(bs) THEN 0
                      ELSE IF bs[i] < 128 THEN i
                      ELSE VarEnd(bs, i + 1, lim - 1)

(* unsigned value of the varint bs[i..e] *)
VarMag(bs, i, e) ==
  IF e = i THEN (IF bs[i] = 0 THEN <<>> ELSE <<bs[i]>>)
  ELSE IF e = i + 1 THEN MagTrim(<<bs[i] - 128 + 128 * bs[e]>>)
  ELSE GroupsToMag([k \in 1..(e - i + 1) |-> bs[i + k - 1] % 128])
VarNum(bs, i, e) == MkNum(1, VarMag(bs, i, e))

(* native value of a non-negative Num, -1 if it does not fit *)
ToNat(x) == IF Len(x) = 1 THEN 0
            ELSE IF x[1] < 0 THEN -1
            ELSE IF Len(x) = 2 THEN x[2]
            ELSE IF Len(x) = 3 /\ x[3] < 1024 THEN x[2] + x[3] * BB
            ELSE -1

Bad == [ok |-> FALSE, f |-> <<>>]

(* message bytes -> sequence of <<field number, wire type, value>>; the value is
   a Num (0), a byte sequence (1, 2, 5).  The bytes are passed one by one; nx is
   the place of the next field. *)
FieldAt(bs, acc, i) ==
  LET e == VarEnd(bs, i, 5)
      key == IF e = 0 THEN 0 ELSE ToNat(VarNum(bs, i, e))
      no  == key \div 8
      wt  == key % 8
      j   == e + 1
      No  == [ok |-> FALSE, nx |-> 0, f |-> <<>>]
      Yes(nx, val) == IF nx > Len(bs) + 1 THEN No
                      ELSE [ok |-> TRUE, nx |-> nx, f |-> Append(acc.f, TLCEval(<<no, wt, val>>))]
  IN IF key < 8 THEN No
     ELSE CASE wt = 0 ->
            LET e2 == VarEnd(bs, j, 10) IN
            IF e2 = 0 THEN No ELSE Yes(e2 + 1, VarNum(bs, j, e2))
       [] wt = 1 -> IF j + 7 > Len(bs) THEN No ELSE Yes(j + 8, SubSeq(bs, j, j + 7))
       [] wt = 5 -> IF j + 3 > Len(bs) THEN No ELSE Yes(j + 4, SubSeq(bs, j, j + 3))
       [] wt = 2 ->
            LET e2 == VarEnd(bs, j, 5)
                n  == IF e2 = 0 THEN -1 ELSE ToNat(VarNum(bs, j, e2))
            IN IF n < 0 \/ n > Len(bs) \/ e2 + n > Len(bs) THEN No
               ELSE Yes(e2 + n + 1, SubSeq(bs, e2 + 1, e2 + n))
       [] OTHER -> No
Parse(bs) ==
  LET r == FoldLeft(LAMBDA acc, i : IF ~acc.ok \/ i # acc.nx THEN acc ELSE FieldAt(bs, acc, i),
                    [ok |-> TRUE, nx |-> 1, f |-> <<>>], TLCEval([i \in 1..Len(bs) |-> i]))
  IN IF r.ok /\ r.nx = Len(bs) + 1 THEN [ok |-> TRUE, f |-> r.f] ELSE Bad

Named(m, no) == SelectSeq(m.f, LAMBDA f : f[1] = no)
(* every field `no` has wire type wt *)
Typed(m, no, wt) == \A i \in 1..Len(m.f) : m.f[i][1] = no => m.f[i][2] = wt
Known(m, S) == \A i \in 1..Len(m.f) : m.f[i][1] \in S
Has(m, no) == \E i \in 1..Len(m.f) : m.f[i][1] = no
Vals(m, no) == LET s == Named(m, no) IN TLCEval([i \in 1..Len(s) |-> s[i][3]])
(* the last occurrence wins *)
NumOr(m, no, d) == LET s == Named(m, no) IN IF s = <<>> THEN d ELSE s[Len(s)][3]
Num0(m, no) == NumOr(m, no, Zero)
Nat0(m, no) == ToNat(Num0(m, no))
BytesOr(m, no, d) == LET s == Named(m, no) IN IF s = <<>> THEN d ELSE s[Len(s)][3]
(* absent -> <<>>, present -> <<value>> *)
Opt(m, no) == LET s == Named(m, no) IN IF s = <<>> THEN <<>> ELSE <<s[Len(s)][3]>>
OptZig(m, no) == LET o == Opt(m, no) IN
                 IF o = <<>> THEN o ELSE <<UnZigZag(Mag(o[1]))>>

(* a repeated varint field, packed or not, as Nums; ok = FALSE if malformed *)
Varints(bs) ==
  LET r == FoldLeft(LAMBDA a, b : IF b < 128 THEN [a EXCEPT !.g = <<>>, !.v = Append(@, MkNum(1, GroupsToMag(Append(a.g, b))))]
                                  ELSE [a EXCEPT !.g = Append(@, b - 128)],
                    [g |-> <<>>, v |-> <<>>], bs)
  IN [ok |-> r.g = <<>>, v |-> r.v]
Repeated(m, no) ==
  FoldLeft(LAMBDA a, f : IF ~a.ok \/ f[1] # no THEN a
                         ELSE IF f[2] = 0 THEN [a EXCEPT !.v = Append(@, f[3])]
                         ELSE IF f[2] = 2 THEN
                              LET r == Varints(f[3]) IN [ok |-> r.ok, v |-> a.v \o r.v]
                         ELSE [a EXCEPT !.ok = FALSE],
           [ok |-> TRUE, v |-> <<>>], m.f)
RepeatedNat(m, no) == LET r == Repeated(m, no) IN
   [ok |-> r.ok /\ \A i \in 1..Len(r.v) : ToNat(r.v[i]) >= 0,
    v |-> TLCEval([i \in 1..Len(r.v) |-> ToNat(r.v[i])])]

(* sub-messages of a repeated field *)
Subs(m, no) == LET s == Vals(m, no) IN TLCEval([i \in 1..Len(s) |-> Parse(s[i])])

(* ------------------------------------------------------------------ *)
(* orc_proto messages                                                   *)

ParsePostScript(bs) ==
  LET m == Parse(bs)
      v == RepeatedNat(m, 4)
  IN IF ~m.ok \/ ~Typed(m, 1, 0) \/ ~Typed(m, 2, 0) \/ ~Typed(m, 3, 0) \/ ~Typed(m, 5, 0)
        \/ ~Typed(m, 6, 0) \/ ~Typed(m, 8000, 2) \/ ~v.ok
     THEN [ok |-> FALSE, footerLen |-> 0, comp |-> 0, block |-> 0, version |-> <<>>,
           metaLen |-> 0, writerVersion |-> 0, magic |-> <<>>]
     ELSE [ok |-> TRUE, footerLen |-> Nat0(m, 1), comp |-> Nat0(m, 2), block |-> Nat0(m, 3),
           version |-> v.v, metaLen |-> Nat0(m, 5), writerVersion |-> Nat0(m, 6),
           magic |-> BytesOr(m, 8000, <<>>)]

(* ColumnStatistics *)
NoStats == [ok |-> FALSE, n |-> Zero, null |-> FALSE, kinds |-> {}, min |-> <<>>, max |-> <<>>,
            sum |-> <<>>, counts |-> <<>>]
ParseStats(bs) ==
  LET m == Parse(bs)
      kinds == {f \in 2..9 : Has(m, f)}
      k == CHOOSE f \in kinds : TRUE
      one == Cardinality(kinds)
      s == IF one = 1 THEN Parse(BytesOr(m, k, <<>>)) ELSE [ok |-> TRUE, f |-> <<>>]
      zig == one = 1 /\ k \in {2, 7, 9}
      cnt == RepeatedNat(s, 1)
  IN IF ~m.ok \/ ~Typed(m, 1, 0) \/ ~Typed(m, 10, 0) \/ one > 1
        \/ (\E f \in kinds : ~Typed(m, f, 2)) \/ ~s.ok THEN NoStats
     ELSE IF one = 0
     THEN [NoStats EXCEPT !.ok = TRUE, !.n = Num0(m, 1), !.null = (Nat0(m, 10) # 0)]
     ELSE IF (CASE k \in {2, 7, 9} -> ~(Typed(s, 1, 0) /\ Typed(s, 2, 0) /\ Typed(s, 3, 0))
                [] k = 3 -> ~(Typed(s, 1, 1) /\ Typed(s, 2, 1) /\ Typed(s, 3, 1))
                [] k \in {4, 6} -> ~(Typed(s, 1, 2) /\ Typed(s, 2, 2) /\ Typed(s, 3, IF k = 4 THEN 0 ELSE 2))
                [] k = 5 -> ~cnt.ok
                [] k = 8 -> ~Typed(s, 1, 0)) THEN NoStats
     ELSE [ok |-> TRUE, n |-> Num0(m, 1), null |-> (Nat0(m, 10) # 0), kinds |-> kinds,
           min |-> IF k \in {5, 8} THEN <<>> ELSE IF zig THEN OptZig(s, 1) ELSE Opt(s, 1),
           max |-> IF k \in {5, 8} THEN <<>> ELSE IF zig THEN OptZig(s, 2) ELSE Opt(s, 2),
           sum |-> CASE k \in {2, 4} -> OptZig(s, 3)
                     [] k \in {3, 6} -> Opt(s, 3)
                     [] k = 8 -> OptZig(s, 1)
                     [] OTHER -> <<>>,
           counts |-> IF k = 5 THEN TLCEval(cnt.v) ELSE <<>>]

ParseStatsList(ss) == TLCEval([i \in 1..Len(ss) |-> ParseStats(ss[i])])

ParseType(bs) ==
  LET m == Parse(bs)
      st == RepeatedNat(m, 2)
  IN IF ~m.ok \/ ~Typed(m, 1, 0) \/ ~Typed(m, 3, 2) \/ ~Typed(m, 4, 0) \/ ~Typed(m, 5, 0)
        \/ ~Typed(m, 6, 0) \/ ~st.ok
     THEN [ok |-> FALSE, kind |-> -1, subs |-> <<>>, names |-> <<>>, max |-> Zero, prec |-> 0, scale |-> 0]
     ELSE [ok |-> TRUE, kind |-> IF Has(m, 1) THEN Nat0(m, 1) ELSE 0, subs |-> st.v,
           names |-> Vals(m, 3), max |-> Num0(m, 4), prec |-> Nat0(m, 5), scale |-> Nat0(m, 6)]

ParseStripeInfo(bs) ==
  LET m == Parse(bs) IN
  IF ~m.ok \/ \E f \in 1..5 : ~Typed(m, f, 0)
  THEN [ok |-> FALSE, off |-> 0, il |-> 0, dl |-> 0, fl |-> 0, rows |-> 0]
  ELSE [ok |-> TRUE, off |-> Nat0(m, 1), il |-> Nat0(m, 2), dl |-> Nat0(m, 3),
        fl |-> Nat0(m, 4), rows |-> Nat0(m, 5)]

ParseFooter(bs) ==
  LET m == Parse(bs)
      good == m.ok /\ Typed(m, 1, 0) /\ Typed(m, 2, 0) /\ Typed(m, 3, 2) /\ Typed(m, 4, 2)
              /\ Typed(m, 6, 0) /\ Typed(m, 7, 2) /\ Typed(m, 8, 0)
      si == Vals(m, 3)
      ty == Vals(m, 4)
      stripes == TLCEval([i \in 1..Len(si) |-> ParseStripeInfo(si[i])])
      types == TLCEval([i \in 1..Len(ty) |-> ParseType(ty[i])])
  IN IF ~good \/ (\E i \in 1..Len(si) : ~stripes[i].ok) \/ (\E i \in 1..Len(ty) : ~types[i].ok)
     THEN [ok |-> FALSE, headerLen |-> 0, contentLen |-> 0, stripes |-> <<>>, types |-> <<>>,
           rows |-> 0, stats |-> <<>>, stride |-> Zero]
     ELSE [ok |-> TRUE, headerLen |-> Nat0(m, 1), contentLen |-> Nat0(m, 2), stripes |-> stripes,
           types |-> types, rows |-> Nat0(m, 6), stats |-> Vals(m, 7), stride |-> Num0(m, 8)]

(* Metadata: per stripe the sequence of raw column statistics *)
ParseMetadata(bs) ==
  LET m == Parse(bs)
      ss == Subs(m, 1)
  IN IF ~m.ok \/ ~Typed(m, 1, 2) \/ (\E i \in 1..Len(ss) : ~ss[i].ok \/ ~Typed(ss[i], 1, 2))
     THEN [ok |-> FALSE, stripes |-> <<>>]
     ELSE [ok |-> TRUE, stripes |-> TLCEval([i \in 1..Len(ss) |-> Vals(ss[i], 1)])]

ParseStream(bs) ==
  LET m == Parse(bs) IN
  IF ~m.ok \/ \E f \in 1..3 : ~Typed(m, f, 0)
  THEN [ok |-> FALSE, kind |-> 0, col |-> 0, len |-> 0]
  ELSE [ok |-> TRUE, kind |-> Nat0(m, 1), col |-> Nat0(m, 2), len |-> Nat0(m, 3)]

ParseStripeFooter(bs) ==
  LET m == Parse(bs)
      sv == Vals(m, 1)
      streams == TLCEval([i \in 1..Len(sv) |-> ParseStream(sv[i])])
      enc == Subs(m, 2)
  IN IF ~m.ok \/ ~Typed(m, 1, 2) \/ ~Typed(m, 2, 2) \/ (\E i \in 1..Len(sv) : ~streams[i].ok)
        \/ (\E i \in 1..Len(enc) : ~enc[i].ok)
     THEN [ok |-> FALSE, streams |-> <<>>, enc |-> <<>>]
     ELSE [ok |-> TRUE, streams |-> streams,
           enc |-> TLCEval([i \in 1..Len(enc) |-> Nat0(enc[i], 1)])]

(* RowIndex: entries with native positions (-1 where too large) and raw statistics *)
ParseRowIndex(bs) ==
  LET m == Parse(bs)
      es == Subs(m, 1)
      Entry(e) == LET r == Repeated(e, 1) IN
                  [ok |-> e.ok /\ r.ok /\ Typed(e, 2, 2),
                   pos |-> TLCEval([i \in 1..Len(r.v) |-> ToNat(r.v[i])]),
                   stats |-> ParseStats(BytesOr(e, 2, <<>>)),
                   hasStats |-> Has(e, 2)]
      ents == TLCEval([i \in 1..Len(es) |-> Entry(es[i])])
  IN IF ~m.ok \/ ~Typed(m, 1, 2) \/ (\E i \in 1..Len(es) : ~ents[i].ok)
     THEN [ok |-> FALSE, e |-> <<>>]
     ELSE [ok |-> TRUE, e |-> ents]
=============================================================================
