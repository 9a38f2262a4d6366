------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* The properties of a finished file, given the stripes (`closed`) that    *)
(* the state machine OrcWriter has handed over.  Each operator yields a    *)
(* set of complaints <<what, stripe, column>>; the property holds of the   *)
(* file if the set is empty.                                               *)
(***************************************************************************)
EXTENDS Reader

Idx(s) == 1..Len(s)

Stride(tr) == IF tr.stride < 0 THEN 10000 ELSE tr.stride
StripeSize(tr) == IF tr.stripe < 0 THEN 67108864 ELSE tr.stripe
CompCode(tr) == CASE tr.comp = "NONE" -> CNone [] tr.comp = "SNAPPY" -> CSnappy [] OTHER -> CZstd
BlockSize(tr) == IF tr.comp = "NONE" THEN 0 ELSE IF tr.block < 0 THEN 262144 ELSE tr.block

(* everything the checks below share: the tail and the stripes *)
Open(tr) == LET fv == TLCEval(FileView(tr)) IN
            [fv |-> fv,
             sv |-> IF fv.okp /\ fv.okf
                    THEN TLCEval([k \in Idx(fv.foot.stripes) |-> StripeView(tr, fv, k)]) ELSE <<>>]
(* the file can be read as far as its stripe directory, and it lists the stripes
   the state machine has closed *)
Readable(v, closed) ==
  /\ v.fv.okp /\ v.fv.okf
  /\ Len(v.sv) = Len(closed)
  /\ \A k \in Idx(v.sv) : v.sv[k].ok
Unreadable == {<<"the file cannot be read", 0, 0>>}

Col(tr, v, cols, closed, k, c) ==
  ColRead(tr, v.fv, v.sv[k], cols[c], c, Len(closed[k].cells[c]))

(* ---- C01, C02 ---- *)
BadCells(tr, v, cols, closed, C) ==
  {<<"cells differ", k, c>> : <<k, c>> \in
     {x \in Idx(closed) \X C :
        LET r == Col(tr, v, cols, closed, x[1], x[2])
        IN ~r.ok \/ ~CellsMatch(cols[x[2]].k, closed[x[1]].cells[x[2]], r.cells)}}

J01(tr, v, cols, closed) ==
  IF ~Readable(v, closed) THEN Unreadable
  ELSE BadCells(tr, v, cols, closed, {c \in Idx(cols) : cols[c].k \notin NestKinds})

J02(tr, v, cols, closed) ==
  IF ~Readable(v, closed) THEN Unreadable
  ELSE BadCells(tr, v, cols, closed, Idx(cols))

(* ---- C03 ---- *)
J03(tr, v, cols, closed) ==
  IF ~(v.fv.okp /\ v.fv.okf /\ v.fv.okm) \/ (\E k \in Idx(v.sv) : ~v.sv[k].ok) THEN Unreadable
  ELSE LET ps == v.fv.ps
           bad(cs) == \E i \in Idx(cs) : ~ChunkOk(cs[i], ps.block)
           Sec(k, s) == Section(tr.file, v.sv[k].streams[s].off, v.sv[k].streams[s].len, ps.comp, tr.dec)
           streams == UNION {{<<k, s>> : s \in Idx(v.sv[k].streams)} : k \in Idx(v.sv)}
       IN (IF ps.comp # CompCode(tr) THEN {<<"declared codec", 0, 0>>} ELSE {})
          \cup (IF ps.block # BlockSize(tr) THEN {<<"declared block size", 0, 0>>} ELSE {})
          \cup (IF bad(v.fv.fchunks) \/ bad(v.fv.mchunks) THEN {<<"chunk in the tail", 0, 0>>} ELSE {})
          \cup {<<"chunk in a stripe footer", k, 0>> : k \in {k \in Idx(v.sv) : bad(v.sv[k].chunks)}}
          \cup {<<"chunk in a stream", x[1], x[2]>> :
                 x \in {x \in streams : LET r == Sec(x[1], x[2]) IN ~r.ok \/ bad(r.chunks)}}
          \cup J02(tr, v, cols, closed)

(* ---- C04 ---- *)
J04(tr, v, cols, closed) ==
  IF ~(v.fv.okp /\ v.fv.okf /\ v.fv.okm) THEN Unreadable
  ELSE LET F  == tr.file
           fv == v.fv
           si == fv.foot.stripes
           End(k) == si[k].off + si[k].il + si[k].dl + si[k].fl
           Rows(k) == closed[k].rows
           Say(cond, what, k) == IF cond THEN {} ELSE {<<what, k, 0>>}
       IN Say(SubSeq(F, 1, 3) = <<79, 82, 67>>, "magic", 0)
          \cup Say(fv.ps.magic = <<79, 82, 67>>, "postscript magic", 0)
          \cup Say(fv.foot.headerLen = 3, "header length", 0)
          \cup Say(fv.foot.contentLen = fv.mStart - 3, "content length", 0)
          \cup Say(Len(si) = Len(closed), "number of stripes", 0)
          \cup Say(Len(fv.meta.stripes) = Len(si), "stripes in the metadata", 0)
          \cup Say(fv.mStart = IF Len(si) = 0 THEN 3 ELSE End(Len(si)), "end of the last stripe", Len(si))
          \cup Say(fv.foot.rows = FoldLeft(LAMBDA a, x : a + x.rows, 0, closed), "number of rows", 0)
          \cup UNION {Say(v.sv[k].ok, "stripe footer", k)
                      \cup Say(si[k].off = IF k = 1 THEN 3 ELSE End(k - 1), "stripe offset", k)
                      \cup Say(k > Len(closed) \/ si[k].rows = Rows(k), "rows of the stripe", k)
                      \cup Say(~v.sv[k].ok \/ v.sv[k].il = si[k].il, "index length", k)
                      \cup Say(~v.sv[k].ok \/ v.sv[k].dl = si[k].dl, "data length", k)
                      \cup Say(\A i, j \in Idx(v.sv[k].streams) :
                                  (i < j /\ v.sv[k].streams[j].kind \in IndexKinds)
                                     => v.sv[k].streams[i].kind \in IndexKinds, "index streams first", k)
                      \cup Say(\A i, j \in Idx(v.sv[k].streams) :
                                  i # j => <<v.sv[k].streams[i].col, v.sv[k].streams[i].kind>>
                                             # <<v.sv[k].streams[j].col, v.sv[k].streams[j].kind>>, "stream listed twice", k)
                      : k \in Idx(si)}
          \cup (IF Readable(v, closed)
                THEN {<<"section cannot be read", x[1], x[2]>> : x \in
                        {x \in UNION {{<<k, s>> : s \in Idx(v.sv[k].streams)} : k \in Idx(v.sv)} :
                           ~Section(F, v.sv[x[1]].streams[x[2]].off, v.sv[x[1]].streams[x[2]].len, fv.ps.comp, tr.dec).ok}}
                     \cup BadCells(tr, v, cols, closed, Idx(cols))
                ELSE {})

(* ---- C05 ---- *)
StreamKinds(col) ==
  CASE col.k \in {"BOOLEAN", "UNION", "FLOAT", "DOUBLE"} \cup IntKinds -> {0, 1, 6}
    [] col.k \in {"TIMESTAMP", "DECIMAL"} -> {0, 1, 5, 6}
    [] col.k \in TextKinds \cup {"BINARY"} -> {0, 1, 2, 6}
    [] col.k = "STRUCT" -> {0, 6}
    [] OTHER -> {0, 2, 6}
TypeOk(col, t) ==
  /\ t.kind = KindCode(col.k)
  /\ t.subs = [i \in Idx(col.kids) |-> col.kids[i] - 1]
  /\ t.names = IF col.k = "STRUCT" THEN col.names ELSE <<>>
  /\ col.k = "DECIMAL" => t.prec = col.p /\ t.scale = col.s
  /\ col.k \in {"CHAR", "VARCHAR"} => t.max = col.n
J05(tr, v, cols, closed) ==
  IF ~(v.fv.okp /\ v.fv.okf /\ v.fv.okm) \/ (\E k \in Idx(v.sv) : ~v.sv[k].ok) THEN Unreadable
  ELSE LET ft == v.fv.foot
           Say(cond, what, k, c) == IF cond THEN {} ELSE {<<what, k, c>>}
       IN Say(Len(ft.types) = Len(cols), "number of types", 0, 0)
          \cup UNION {Say(c > Len(ft.types) \/ TypeOk(cols[c], ft.types[c]), "type", 0, c) : c \in Idx(cols)}
          \cup Say(ft.stride = tr.strideN, "row index stride", 0, 0)
          \cup Say(v.fv.ps.version = <<0, 12>>, "version", 0, 0)
          \cup Say(v.fv.ps.magic = <<79, 82, 67>>, "postscript magic", 0, 0)
          \cup Say(v.fv.ps.writerVersion = 6, "writer version", 0, 0)
          \cup Say(v.fv.ps.comp = CompCode(tr), "codec", 0, 0)
          \cup Say(v.fv.ps.block = BlockSize(tr), "block size", 0, 0)
          \cup Say(Len(ft.stats) = Len(cols), "file statistics per column", 0, 0)
          \cup Say(\A k \in Idx(v.fv.meta.stripes) : Len(v.fv.meta.stripes[k]) = Len(cols), "stripe statistics per column", 0, 0)
          \cup UNION {Say(v.sv[k].enc = [c \in Idx(cols) |-> 0], "encodings", k, 0) : k \in Idx(v.sv)}
          \cup UNION {Say(\A s \in Idx(v.sv[k].streams) :
                             LET x == v.sv[k].streams[s] IN
                             x.col \in Idx(cols) /\ x.kind \in StreamKinds(cols[x.col]), "streams", k, 0)
                      \cup Say(\A c \in Idx(cols) : HasStream(v.sv[k], c, 6), "row index per column", k, 0) : k \in Idx(v.sv)}

(* ---- statistics of stripes and file ---- *)
AllCells(closed, c) == FoldLeft(LAMBDA a, s : a \o s.cells[c], <<>>, closed)
StatsShape(v, cols, closed) ==
  /\ Readable(v, closed) /\ v.fv.okm
  /\ Len(v.fv.foot.stats) = Len(cols)
  /\ Len(v.fv.meta.stripes) = Len(closed)
  /\ \A k \in Idx(v.fv.meta.stripes) : Len(v.fv.meta.stripes[k]) = Len(cols)
BadStats(v, cols, closed, Ok(_, _, _)) ==
  {<<"stripe statistics", x[1], x[2]>> : x \in
     {x \in Idx(closed) \X Idx(cols) :
        ~Ok(cols[x[2]], closed[x[1]].cells[x[2]], ParseStats(v.fv.meta.stripes[x[1]][x[2]]))}}
  \cup {<<"file statistics", 0, c>> : c \in
     {c \in Idx(cols) : ~Ok(cols[c], AllCells(closed, c), ParseStats(v.fv.foot.stats[c]))}}

J06(tr, v, cols, closed) ==
  IF ~StatsShape(v, cols, closed) THEN Unreadable
  ELSE BadStats(v, cols, closed, StatOk)

(* ---- row groups ---- *)
IndexOf(tr, v, k, c) ==
  LET d == StreamData(tr, v.fv, v.sv[k], c, 6)
  IN IF d.ok THEN ParseRowIndex(d.data) ELSE [ok |-> FALSE, e |-> <<>>]

(* starts of the groups when a column's own cells are counted *)
OwnStarts(n, S) == IF n = 0 THEN <<>>
                   ELSE IF S = 0 THEN <<0>>
                   ELSE [i \in 1..((n + S - 1) \div S) |-> (i - 1) * S]
(* starts of the groups of S rows of the stripe *)
RowStarts(cols, st, c0, S) ==
  LET R[c \in 1..c0] ==
        IF cols[c].par = 0 THEN OwnStarts(st.rows, S)
        ELSE LET up  == R[cols[c].par]
                 pc  == cols[cols[c].par]
                 pre == PrefixSums(TLCEval([i \in Idx(st.cells[cols[c].par]) |->
                                      Owed(pc.k, cols[c].ord, <<st.cells[cols[c].par][i]>>)]))
             IN [i \in Idx(up) |-> pre[up[i] + 1]]
  IN R[c0]
(* columns whose cells are not in step with the rows of the stripe: beneath a
   list, map or union, or a struct with nulls *)
RECURSIVE OutOfStep(_, _, _)
OutOfStep(cols, st, c) ==
  cols[c].par # 0 /\ LET p == cols[c].par IN
                     \/ cols[p].k # "STRUCT"
                     \/ \E i \in Idx(st.cells[p]) : st.cells[p][i] = <<>>
                     \/ OutOfStep(cols, st, p)
Part(cells, starts, g) ==
  SubSeq(cells, starts[g] + 1, IF g = Len(starts) THEN Len(cells) ELSE starts[g + 1])
EntriesFit(cells, starts, es) ==
  /\ Len(es) = Len(starts)
  /\ \A g \in Idx(es) : CountsOk(Part(cells, starts, g), es[g].stats)

(* an index agrees in full with a division *)
AgreesWith(tr, v, cols, closed, k, c, es, starts) ==
  LET ce == closed[k].cells[c]
      rd == TLCEval(Col(tr, v, cols, closed, k, c))
      nn == PrefixSums(TLCEval([i \in Idx(ce) |-> IF ce[i] = <<>> THEN 0 ELSE 1]))
  IN /\ Len(es) = Len(starts)
     /\ \A g \in Idx(es) :
          /\ StatOk(cols[c], Part(ce, starts, g), es[g].stats)
          /\ rd.ok => PosOk(v.fv.ps.comp, rd.ss, es[g].pos, starts[g], nn[starts[g] + 1])
(* the division into groups by which an index is judged: by rows of the stripe,
   or - only for columns out of step with the rows, known finding D10 - by the
   column's own cells, unless the index agrees in full with the rows *)
Grouping(tr, v, cols, closed, k, c) ==
  LET st   == closed[k]
      rowS == TLCEval(RowStarts(cols, st, c, Stride(tr)))
      ownS == OwnStarts(Len(st.cells[c]), Stride(tr))
  IN IF rowS = ownS \/ ~OutOfStep(cols, st, c) THEN [starts |-> rowS, own |-> FALSE]
     ELSE IF AgreesWith(tr, v, cols, closed, k, c, TLCEval(IndexOf(tr, v, k, c).e), rowS) THEN [starts |-> rowS, own |-> FALSE]
     ELSE [starts |-> ownS, own |-> TRUE]

Pairs(closed, cols) == Idx(closed) \X Idx(cols)

J07(tr, v, cols, closed) ==
  IF ~Readable(v, closed) THEN Unreadable
  ELSE {<<"row group statistics", x[1], x[2]>> : x \in
          {x \in Pairs(closed, cols) :
             LET ix == TLCEval(IndexOf(tr, v, x[1], x[2]))
                 gr == TLCEval(Grouping(tr, v, cols, closed, x[1], x[2]))
                 ce == closed[x[1]].cells[x[2]]
             IN ~ix.ok \/ \E g \in 1..Mn(Len(ix.e), Len(gr.starts)) :
                             ~ix.e[g].hasStats \/ ~StatOk(cols[x[2]], Part(ce, gr.starts, g), ix.e[g].stats)}}

J08(tr, v, cols, closed) ==
  IF ~Readable(v, closed) THEN Unreadable
  ELSE {<<"row index positions", x[1], x[2]>> : x \in
          {x \in Pairs(closed, cols) :
             LET ix == TLCEval(IndexOf(tr, v, x[1], x[2]))
                 gr == TLCEval(Grouping(tr, v, cols, closed, x[1], x[2]))
                 ce == closed[x[1]].cells[x[2]]
                 rd == TLCEval(Col(tr, v, cols, closed, x[1], x[2]))
                 nn == PrefixSums(TLCEval([i \in Idx(ce) |-> IF ce[i] = <<>> THEN 0 ELSE 1]))
             IN ~ix.ok \/ ~rd.ok
                \/ \E g \in 1..Mn(Len(ix.e), Len(gr.starts)) :
                      LET i == gr.starts[g] IN
                      ~PosOk(v.fv.ps.comp, rd.ss, ix.e[g].pos, i, nn[i + 1])}}

J09(tr, v, cols, closed) ==
  IF ~Readable(v, closed) THEN Unreadable
  ELSE {<<"row groups", x[1], x[2]>> : x \in
          {x \in Pairs(closed, cols) :
             LET ix == TLCEval(IndexOf(tr, v, x[1], x[2]))
                 gr == TLCEval(Grouping(tr, v, cols, closed, x[1], x[2]))
             IN ~ix.ok \/ ~EntriesFit(closed[x[1]].cells[x[2]], gr.starts, ix.e)}}
(* where known finding D10 shows *)
OwnGroups(tr, v, cols, closed) ==
  {x \in Pairs(closed, cols) : Grouping(tr, v, cols, closed, x[1], x[2]).own}

(* ---- C10 ----
   marks: one record per accepted batch: the stripe it ended in, the cells and
   the non-null cells every column had then, whether the stripe was handed over,
   and the number of bytes in the sink *)
(* uncompressed bytes of a stream that were certainly encoded once it had i
   values: whole groups that ended three or more values earlier *)
Held(s, i) ==
  IF s.ty = "raw" THEN s.t[i + 1]
  ELSE LET lim == (IF s.ty = "bool" THEN i \div 8 ELSE i) - 3
           ok  == SelectSeq(s.t, LAMBDA g : g[2] <= lim)
       IN IF ok = <<>> THEN 0 ELSE ok[Len(ok)][1]
(* the same after compression: closed chunks count as compressed *)
HeldOut(comp, s, i) ==
  LET b == Held(s, i) IN
  IF comp = CNone THEN b
  ELSE FoldLeft(LAMBDA a, c : IF c.u + c.ul < b THEN a + c.n
                              ELSE IF c.u < b THEN a + (b - c.u) ELSE a, 0, s.chunks)
(* an upper bound for what a whole stream held before it was handed over *)
MostOut(comp, s) ==
  IF comp = CNone THEN Len(s.data)
  ELSE FoldLeft(LAMBDA a, i : a + (IF i = Len(s.chunks) THEN s.chunks[i].ul ELSE s.chunks[i].n), 0, [i \in Idx(s.chunks) |-> i])
(* the present bits of a column without nulls are held but not written *)
BitsBound(n) == 2 * ((n \div 8) \div 130)

J10(tr, v, cols, closed, marks) ==
  IF ~Readable(v, closed) THEN Unreadable
  ELSE LET si == v.fv.foot.stripes
           End(k) == si[k].off + si[k].il + si[k].dl + si[k].fl
           Say(cond, what, k) == IF cond THEN {} ELSE {<<what, k, 0>>}
           S  == StripeSize(tr)
           cv == [k \in Idx(closed) |-> TLCEval([c \in Idx(cols) |-> Col(tr, v, cols, closed, k, c)])]
           rd == TLCEval(cv)
           SumS(ss, F(_)) == FoldLeft(LAMBDA a, s : a + F(s), 0, ss)
           Low(m) == FoldLeft(LAMBDA a, c :
                        a + SumS(rd[m.stripe][c].ss,
                                 LAMBDA s : HeldOut(v.fv.ps.comp, s, IF s.isP THEN m.n[c] ELSE m.nn[c])),
                        0, [c \in Idx(cols) |-> c])
           High(k) == FoldLeft(LAMBDA a, c :
                        a + SumS(rd[k][c].ss, LAMBDA s : MostOut(v.fv.ps.comp, s))
                          + (IF rd[k][c].hasP THEN 0 ELSE BitsBound(Len(closed[k].cells[c]))),
                        0, [c \in Idx(cols) |-> c])
       IN UNION {Say(si[k].rows = closed[k].rows, "rows of the stripe", k)
                 \cup Say(\A c \in Idx(cols) : rd[k][c].ok, "stripe cannot be read", k) : k \in Idx(closed)}
          \cup BadCells(tr, v, cols, closed, Idx(cols))
          \cup (IF \E k \in Idx(closed) : \E c \in Idx(cols) : ~rd[k][c].ok THEN {}
                ELSE UNION {LET m == marks[i]
                                done == IF m.closed THEN m.stripe ELSE m.stripe - 1
                            IN Say(m.out = IF done = 0 THEN 3 ELSE End(done), "bytes in the sink after a batch", done)
                               \cup (IF m.closed
                                     THEN Say(High(m.stripe) > S, "stripe closed early", m.stripe)
                                     ELSE IF m.stripe > Len(closed) THEN {}
                                     ELSE Say(Low(m) <= S, "stripe not closed in time", m.stripe))
                            : i \in Idx(marks)})

(* ---- C17 ----
   every setting shows in the file: codec and block size in the chunks, stride in the row
   groups, stripe size in the stripes *)
J17(tr, v, cols, closed, marks) ==
  IF ~Readable(v, closed) THEN Unreadable
  ELSE J03(tr, v, cols, closed) \cup J09(tr, v, cols, closed) \cup J10(tr, v, cols, closed, marks)
       \cup (IF v.fv.foot.stride = tr.strideN THEN {} ELSE {<<"row index stride", 0, 0>>})

(* ---- C15 ---- *)
FlagOk(col, cells, st) == NullOk(cells, st) /\ CountsOk(cells, st)
J15(tr, v, cols, closed) ==
  IF ~StatsShape(v, cols, closed) THEN Unreadable
  ELSE LET NPosAll(ss) == FoldLeft(LAMBDA a, s : a + NPos(v.fv.ps.comp, s.ty), 0, ss)
           Null(x) == \E i \in Idx(closed[x[1]].cells[x[2]]) : closed[x[1]].cells[x[2]][i] = <<>>
       IN {<<"present stream", x[1], x[2]>> : x \in
             {x \in Pairs(closed, cols) : HasStream(v.sv[x[1]], x[2], 0) # Null(x)}}
          \cup {<<"nulls differ", x[1], x[2]>> : x \in
             {x \in Pairs(closed, cols) :
                LET r == Col(tr, v, cols, closed, x[1], x[2])
                    w == closed[x[1]].cells[x[2]]
                IN ~r.ok \/ Len(r.cells) # Len(w) \/ \E i \in Idx(w) : (w[i] = <<>>) # (r.cells[i] = <<>>)}}
          \cup {<<"row index", x[1], x[2]>> : x \in
             {x \in Pairs(closed, cols) :
                LET ix == TLCEval(IndexOf(tr, v, x[1], x[2]))
                    gr == TLCEval(Grouping(tr, v, cols, closed, x[1], x[2]))
                    ce == closed[x[1]].cells[x[2]]
                    np == NPosAll(Col(tr, v, cols, closed, x[1], x[2]).ss)
                IN ~ix.ok \/ \E g \in 1..Mn(Len(ix.e), Len(gr.starts)) :
                                \/ ~NullOk(Part(ce, gr.starts, g), ix.e[g].stats)
                                \/ Len(ix.e[g].pos) # np}}
          \cup BadStats(v, cols, closed, FlagOk)
=============================================================================
