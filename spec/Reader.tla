------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* What a file means: the reader side of the ORC v0 format.  `tr` is a     *)
(* recorded run; tr.file holds the bytes, tr.dec the Zstandard oracle.     *)
(* Offsets count from 0; column numbers in files count from 0, columns in  *)
(* the specification (`cols`) from 1.                                       *)
(***************************************************************************)
EXTENDS Stats

(* ---- the tail ---- *)
FileView(tr) ==
  LET F   == tr.file
      n   == Len(F)
      pl  == IF n = 0 THEN 0 ELSE F[n]
      pss == n - 1 - pl
      ps  == IF n < 4 \/ pss < 3 THEN ParsePostScript(<<255>>) ELSE ParsePostScript(SubSeq(F, pss + 1, n - 1))
      fs  == pss - ps.footerLen
      ms  == fs - ps.metaLen
      okp == ps.ok /\ ps.footerLen >= 0 /\ ps.metaLen >= 0 /\ ps.block >= 0
             /\ ps.comp \in {CNone, CSnappy, CZstd} /\ ps.footerLen <= pss /\ ps.metaLen <= fs
      fsec == IF okp THEN Section(F, fs, ps.footerLen, ps.comp, tr.dec) ELSE NoSection
      msec == IF okp THEN Section(F, ms, ps.metaLen, ps.comp, tr.dec) ELSE NoSection
      foot == IF fsec.ok THEN ParseFooter(fsec.data) ELSE ParseFooter(<<255>>)
      meta == IF msec.ok THEN ParseMetadata(msec.data) ELSE ParseMetadata(<<255>>)
  IN [okp |-> okp, okf |-> fsec.ok /\ foot.ok, okm |-> msec.ok /\ meta.ok,
      ps |-> ps, psStart |-> pss, fStart |-> fs, mStart |-> ms,
      foot |-> foot, meta |-> meta, fchunks |-> fsec.chunks, mchunks |-> msec.chunks]

(* ---- one stripe ---- *)
IndexKinds == {6, 7, 8}
NoStripe == [ok |-> FALSE, info |-> ParseStripeInfo(<<255>>), streams |-> <<>>, enc |-> <<>>, chunks |-> <<>>,
             il |-> 0, dl |-> 0]
StripeView(tr, fv, k) ==
  LET info == fv.foot.stripes[k]
      okl  == info.off >= 0 /\ info.il >= 0 /\ info.dl >= 0 /\ info.fl >= 0 /\ info.rows >= 0
              /\ info.off <= Len(tr.file) /\ info.il <= Len(tr.file) /\ info.dl <= Len(tr.file)
      sec  == IF okl THEN Section(tr.file, info.off + info.il + info.dl, info.fl, fv.ps.comp, tr.dec) ELSE NoSection
      ft   == IF sec.ok THEN ParseStripeFooter(sec.data) ELSE ParseStripeFooter(<<255>>)
      place(acc, s) ==
        IF ~acc.ok \/ s.kind < 0 \/ s.col < 0 \/ s.len < 0 \/ s.len > Len(tr.file) - acc.at
        THEN [acc EXCEPT !.ok = FALSE]
        ELSE [acc EXCEPT !.at = @ + s.len, !.out = Append(@, [kind |-> s.kind, col |-> s.col + 1, off |-> acc.at, len |-> s.len])]
      pl   == FoldLeft(place, [ok |-> ft.ok, at |-> info.off, out |-> <<>>], ft.streams)
  IN IF ~okl \/ ~ft.ok \/ ~pl.ok THEN NoStripe
     ELSE [ok |-> TRUE, info |-> info, streams |-> pl.out, enc |-> ft.enc, chunks |-> sec.chunks,
           il |-> FoldLeft(LAMBDA a, s : IF s.kind \in IndexKinds THEN a + s.len ELSE a, 0, pl.out),
           dl |-> FoldLeft(LAMBDA a, s : IF s.kind \in IndexKinds THEN a ELSE a + s.len, 0, pl.out)]

StreamAt(sv, c, kind) == SelectSeq(sv.streams, LAMBDA s : s.col = c /\ s.kind = kind)
HasStream(sv, c, kind) == StreamAt(sv, c, kind) # <<>>

(* content of a stream; an absent one is empty *)
StreamData(tr, fv, sv, c, kind) ==
  LET s == StreamAt(sv, c, kind) IN
  IF s = <<>> THEN [ok |-> TRUE, data |-> <<>>, chunks |-> <<>>, len |-> 0]
  ELSE LET r == Section(tr.file, s[1].off, s[1].len, fv.ps.comp, tr.dec)
       IN [ok |-> r.ok, data |-> r.data, chunks |-> r.chunks, len |-> s[1].len]

(* ---- one column of one stripe, holding N cells ----
   ss: its streams in the order in which positions are listed, each with the
   decoded values v, the group table t and ty in {"bool","byte","int","raw"};
   for "raw" streams t gives the byte offset at which each value starts.  *)
CellsFrom(pres, has, vals, N) ==
  IF ~has THEN [i \in 1..N |-> <<vals[i]>>]
  ELSE FoldLeft(LAMBDA a, i : IF BitAt(pres, i - 1)
                              THEN [a EXCEPT !.k = @ + 1, !.out = Append(@, <<vals[a.k + 1]>>)]
                              ELSE [a EXCEPT !.out = Append(@, <<>>)],
                [k |-> 0, out |-> <<>>], [i \in 1..N |-> i]).out

PrefixSums(ns) == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x), <<0>>, ns)

Strm(ty, sd, dec) == [ty |-> ty, ok |-> sd.ok /\ dec.ok, data |-> sd.data, chunks |-> sd.chunks, len |-> sd.len,
                      v |-> dec.v, t |-> dec.t, signed |-> FALSE, isP |-> FALSE]

ColRead(tr, fv, sv, col, c, N) ==
  LET D(kind) == StreamData(tr, fv, sv, c, kind)
      hasP  == HasStream(sv, c, 0)
      pd    == D(0)
      pdec  == ByteRle(pd.data)
      okP   == ~hasP \/ (pd.ok /\ pdec.ok /\ Len(pdec.v) = (N + 7) \div 8)
      pres  == pdec.v
      m     == IF ~okP THEN 0
               ELSE IF ~hasP THEN N
               ELSE FoldLeft(LAMBDA a, i : IF BitAt(pres, i - 1) THEN a + 1 ELSE a, 0, [i \in 1..N |-> i])
      ps    == IF hasP THEN <<[Strm("bool", pd, pdec) EXCEPT !.isP = TRUE]>> ELSE <<>>
      I(kind, sg) == LET d == D(kind) IN [Strm("int", d, IntRle(d.data, sg)) EXCEPT !.signed = sg]
      Y(kind, ty) == LET d == D(kind) IN Strm(ty, d, ByteRle(d.data))
      Raw(kind, w) == LET d == D(kind) IN
                      Strm("raw", d, [ok |-> Len(d.data) = w * m, v |-> Slices(d.data, w),
                                      t |-> [i \in 1..(m + 1) |-> (i - 1) * w]])
      k     == col.k
      body  == CASE k = "BOOLEAN" -> <<Y(1, "bool")>>
                 [] k \in IntKinds -> <<I(1, TRUE)>>
                 [] k = "FLOAT" -> <<Raw(1, 4)>>
                 [] k = "DOUBLE" -> <<Raw(1, 8)>>
                 [] k = "TIMESTAMP" -> <<I(1, TRUE), I(5, FALSE)>>
                 [] k = "DECIMAL" ->
                      LET d == D(1)
                          r == SVarints(d.data)
                      IN <<Strm("raw", d, [ok |-> r.ok, v |-> r.v,
                               t |-> [i \in 1..(Len(r.v) + 1) |-> IF i <= Len(r.v) THEN r.t[i][1] ELSE Len(d.data)]]),
                           I(5, TRUE)>>
                 [] k \in TextKinds \cup {"BINARY"} ->
                      LET l == I(2, FALSE)
                          d == D(1)
                          ns == [i \in 1..Len(l.v) |-> ToNat(l.v[i])]
                          sane == \A i \in 1..Len(ns) : ns[i] >= 0 /\ ns[i] <= Len(d.data)
                          off == IF sane THEN PrefixSums(ns) ELSE <<0>>
                          good == sane /\ off[Len(off)] = Len(d.data)
                      IN <<Strm("raw", d, [ok |-> good, t |-> off,
                               v |-> IF good THEN [i \in 1..Len(ns) |-> SubSeq(d.data, off[i] + 1, off[i + 1])] ELSE <<>>]),
                           l>>
                 [] k = "STRUCT" -> <<>>
                 [] k \in {"LIST", "MAP"} -> <<I(2, FALSE)>>
                 [] k = "UNION" -> <<Y(1, "byte")>>
      b     == TLCEval(body)
      okB   == /\ \A i \in 1..Len(b) : b[i].ok
               /\ CASE k = "BOOLEAN" -> Len(b[1].v) = (m + 7) \div 8
                    [] k = "STRUCT" -> TRUE
                    [] OTHER -> \A i \in 1..Len(b) : Len(b[i].v) = m
               /\ k = "DECIMAL" => \A i \in 1..m : b[2].v[i] = NumOf(col.s)
               /\ k = "TIMESTAMP" => \A i \in 1..m : Nanos(b[2].v[i]) >= 0
               /\ k \in {"LIST", "MAP"} => \A i \in 1..m : ToNat(b[1].v[i]) >= 0
      vals  == CASE k = "BOOLEAN" -> [i \in 1..m |-> IF BitAt(b[1].v, i - 1) THEN 1 ELSE 0]
                 [] k = "TIMESTAMP" -> [i \in 1..m |-> <<b[1].v[i], Nanos(b[2].v[i])>>]
                 [] k \in {"LIST", "MAP"} -> [i \in 1..m |-> ToNat(b[1].v[i])]
                 [] k = "STRUCT" -> [i \in 1..m |-> 1]
                 [] OTHER -> b[1].v
  IN IF ~okP \/ ~okB THEN [ok |-> FALSE, cells |-> <<>>, hasP |-> hasP, ss |-> ps \o b]
     ELSE [ok |-> TRUE, cells |-> TLCEval(CellsFrom(pres, hasP, vals, N)), hasP |-> hasP, ss |-> ps \o b]

(* a written cell as a reader sees it (floats are recorded with their widened
   form beside the stored one) *)
AsRead(k, x) == IF x = <<>> \/ k \notin {"FLOAT", "DOUBLE"} THEN x ELSE <<x[1][1]>>
CellsMatch(k, written, read) ==
  /\ Len(written) = Len(read)
  /\ \A i \in 1..Len(read) : AsRead(k, written[i]) = read[i]

(* ---- positions ---- *)
(* number of position components of a stream *)
NPos(comp, ty) == (IF comp = CNone THEN 1 ELSE 2)
                  + (CASE ty = "bool" -> 2 [] ty = "raw" -> 0 [] OTHER -> 1)

(* uncompressed offset a (chunk, offset) pair points at, -1 if none *)
SeekAt(comp, s, p) ==
  IF comp = CNone THEN (IF p[1] < 0 \/ p[1] > Len(s.data) THEN -1 ELSE p[1])
  ELSE IF p[1] < 0 \/ p[2] < 0 THEN -1
  ELSE IF p[1] = s.len THEN (IF p[2] = 0 THEN Len(s.data) ELSE -1)
  ELSE LET m == SelectSeq(s.chunks, LAMBDA c : c.s = p[1]) IN
       IF m = <<>> THEN -1 ELSE IF p[2] > m[1].ul THEN -1 ELSE m[1].u + p[2]

(* index of the first value of the group starting at byte offset a, -1 if no
   group starts there *)
GroupAt(s, a) == IF a = Len(s.data) THEN Len(s.v)
                 ELSE LET m == SelectSeq(s.t, LAMBDA g : g[1] = a) IN IF m = <<>> THEN -1 ELSE m[1][2]

(* what a reader decodes from there when no group starts there: compare values *)
Suffix(v, i) == SubSeq(v, i + 1, Len(v))
DecodeSame(s, a, skip, idx) ==
  LET bs == SubSeq(s.data, a + 1, Len(s.data))
      r  == IF s.ty = "int" THEN IntRle(bs, s.signed) ELSE ByteRle(bs)
  IN r.ok /\ skip <= Len(r.v) /\ Suffix(r.v, skip) = Suffix(s.v, idx)

(* the position components p of stream s lead to its idx-th value *)
SeekOk(comp, s, p, idx) ==
  LET w == IF comp = CNone THEN 1 ELSE 2
      a == SeekAt(comp, s, p)
  IN /\ a >= 0
     /\ CASE s.ty = "raw" -> a = s.t[idx + 1]
          [] s.ty = "bool" ->
               /\ p[w + 1] >= 0 /\ p[w + 2] \in 0..7
               /\ LET g == GroupAt(s, a) IN
                  \/ g >= 0 /\ 8 * (g + p[w + 1]) + p[w + 2] = idx
                  \/ p[w + 2] = idx % 8 /\ DecodeSame(s, a, p[w + 1], idx \div 8)
          [] OTHER ->
               /\ p[w + 1] >= 0
               /\ LET g == GroupAt(s, a) IN
                  \/ g >= 0 /\ g + p[w + 1] = idx
                  \/ DecodeSame(s, a, p[w + 1], idx)

(* all position components of an entry for the group starting at cell i (from
   0), where j of the cells before it are non-null *)
RECURSIVE PosOk(_, _, _, _, _)
PosOk(comp, ss, pos, i, j) ==
  IF ss = <<>> THEN pos = <<>>
  ELSE LET n == NPos(comp, ss[1].ty)
           present == ss[1].isP
       IN /\ Len(pos) >= n
          /\ SeekOk(comp, ss[1], SubSeq(pos, 1, n), IF present THEN i ELSE j)
          /\ PosOk(comp, Tail(ss), SubSeq(pos, n + 1, Len(pos)), i, j)
=============================================================================
