------------------------------- MODULE Large -------------------------------
(***************************************************************************)
(* Runs that are too large to record cell by cell.  The writer of          *)
(* OrcWriter.tla with cells abstracted to their number: a Put adds n       *)
(* cells, `full` of them not null, that take `bytes` bytes as raw values   *)
(* and ask for `kids` cells of the columns below.  Numbers are Nums        *)
(* (BigInt.tla), so that files may exceed 32 bits.  Of the file, the       *)
(* recorder keeps the first bytes, the tail and the stripe footers.        *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils

CONSTANT Prop
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, cols, at, phase,
          cnt,      \* per column of the open stripe: cells, non-null ones, bytes of raw values,
                    \* cells asked for by the column above
          held,     \* bytes the values of the open stripe take
          rows,     \* rows of the open stripe
          closed,   \* [rows, cnt, held] of the stripes handed over
          out,      \* bytes in the sink
          bad
vars == <<tr, cols, at, phase, cnt, held, rows, closed, out, bad>>

Run == Runs[tr]
Ev == Run.ev
E == Ev[at]
NC == Len(cols)

Half(x) == MkNum(1, MagHalf(Mag(x)))
(* present bits and lengths of uniform cells: at most a byte per eight cells *)
Slack(c) == Add(NumOf(1000), SumN([i \in 1..NC |-> Half(Half(Half(c[i].all)))]))
Limit == IF Run.stripe = <<-1, 1>> THEN NumOf(67108864) ELSE Run.stripe
Plain == Run.comp = "NONE" /\ ~Run.noise
NoCells == [all |-> Zero, full |-> Zero, bytes |-> Zero, asked |-> Zero]

Init == /\ tr \in 1..Len(Runs)
        /\ at = 1 /\ phase = "new" /\ held = Zero /\ rows = Zero /\ closed = <<>> /\ out = Zero /\ bad = {}
        /\ cols = Columns(Runs[tr].schema)
        /\ cnt = [c \in 1..Len(cols) |-> NoCells]

Aligned(n) == \A c \in 1..NC : cnt[c].all = IF c = 1 THEN Add(rows, n) ELSE cnt[c].asked
Fresh == cnt' = [c \in 1..NC |-> NoCells] /\ held' = Zero /\ rows' = Zero
Close(n) == closed' = Append(closed, [rows |-> Add(rows, n), cnt |-> cnt, held |-> held])

New == E.e = "new" /\ phase = "new" /\ E.r = "ok" /\ phase' = "open" /\ UNCHANGED <<cnt, held, rows, closed>>
Put == /\ E.e = "put" /\ phase = "open" /\ E.r = "ok"
       /\ LET c == E.c + 1
              own == [cnt EXCEPT ![c] = [@ EXCEPT !.all = Add(@, E.n), !.full = Add(@, E.full), !.bytes = Add(@, E.bytes)]]
              ask == {E.kids[i][1] + 1 : i \in Idx(E.kids)}
              Kid(k) == (CHOOSE i \in Idx(E.kids) : E.kids[i][1] + 1 = k)
          IN cnt' = IF ask = {} THEN own
                    ELSE IF Cardinality(ask) = Len(E.kids) /\ \A i \in Idx(E.kids) : E.kids[i] = <<E.kids[i][1], E.kids[1][2]>>
                    THEN [d \in 1..NC |-> IF d \in ask THEN [own[d] EXCEPT !.asked = Add(@, E.kids[1][2])] ELSE own[d]]
                    ELSE [d \in 1..NC |-> IF d \in ask THEN [own[d] EXCEPT !.asked = Add(@, E.kids[Kid(d)][2])] ELSE own[d]]
       /\ held' = Add(held, E.bytes)
       /\ UNCHANGED <<phase, rows, closed>>
Grew == E.out # out
(* the stripe is handed over if and only if it holds more than its limit *)
MayClose == ~Plain \/ Lt(Limit, Add(held, Slack(cnt)))
MayStay == ~Plain \/ Leq(held, Limit)
Batch == /\ E.e = "batch" /\ phase = "open" /\ E.r = "ok" /\ Aligned(E.n)
         /\ Prop = "C10" => IF Grew THEN MayClose ELSE MayStay
         /\ IF Grew THEN Close(E.n) /\ Fresh
            ELSE rows' = Add(rows, E.n) /\ UNCHANGED <<cnt, held, closed>>
         /\ UNCHANGED phase
Finish == /\ E.e = "finish" /\ phase = "open" /\ E.r = "ok" /\ Aligned(Zero)
          /\ phase' = "done"
          /\ IF rows # Zero THEN Close(Zero) /\ Fresh ELSE UNCHANGED <<rows, cnt, held, closed>>
Explained == New \/ Put \/ Batch \/ Finish

Step == /\ at > 0 /\ at <= Len(Ev)
        /\ \/ Explained /\ at' = at + 1 /\ bad' = bad
           \/ /\ ~ENABLED Explained
              /\ at' = 0 /\ bad' = {<<Prop, "call not explained", at, 0>>}
              /\ UNCHANGED <<phase, cnt, held, rows, closed>>
        /\ out' = IF E.e = "put" THEN out ELSE E.out
        /\ UNCHANGED <<tr, cols>>

(* ---- the file ---- *)
StripeInfoN(bs) == LET m == Parse(bs) IN
  [ok |-> m.ok /\ \A f \in 1..5 : Typed(m, f, 0),
   off |-> Num0(m, 1), il |-> Num0(m, 2), dl |-> Num0(m, 3), fl |-> Num0(m, 4), rows |-> Num0(m, 5)]
View0 == LET fv == TLCEval(FileView([file |-> Run.tail, dec |-> Run.dec])) IN
         IF ~fv.okp THEN [ok |-> FALSE]
         ELSE LET sec == Section(Run.tail, fv.fStart, fv.ps.footerLen, fv.ps.comp, Run.dec)
                  m   == IF sec.ok THEN Parse(sec.data) ELSE [ok |-> FALSE, f |-> <<>>]
                  si  == Vals(m, 3)
                  ss  == TLCEval([i \in Idx(si) |-> StripeInfoN(si[i])])
              IN [ok |-> sec.ok /\ m.ok /\ fv.okm /\ \A i \in Idx(ss) : ss[i].ok,
                  stripes |-> ss, rows |-> Num0(m, 6), content |-> Num0(m, 2), stats |-> Vals(m, 7),
                  meta |-> fv.meta.stripes,
                  mStart |-> Sub(Add(Run.len, NumOf(fv.mStart)), NumOf(Len(Run.tail)))]
End(s) == Add(s.off, Add(s.il, Add(s.dl, s.fl)))
Say(cond, what, k) == IF cond THEN {} ELSE {<<Prop, what, k, 0>>}
Layout(v) ==
  LET si == v.stripes IN
  Say(Run.head = <<79, 82, 67>>, "magic", 0)
  \cup Say(Len(si) = Len(closed), "number of stripes", 0)
  \cup Say(v.content = Sub(v.mStart, NumOf(3)), "content length", 0)
  \cup Say(v.mStart = IF si = <<>> THEN NumOf(3) ELSE End(si[Len(si)]), "end of the last stripe", 0)
  \cup Say(v.rows = SumN([k \in Idx(closed) |-> closed[k].rows]), "number of rows", 0)
  \cup UNION {Say(si[k].off = IF k = 1 THEN NumOf(3) ELSE End(si[k - 1]), "stripe offset", k)
              \cup Say(k > Len(closed) \/ si[k].rows = closed[k].rows, "rows of the stripe", k)
              \cup Say(~Plain \/ k > Len(closed)
                         \/ (Leq(closed[k].held, si[k].dl) /\ Leq(si[k].dl, Add(closed[k].held, Slack(closed[k].cnt)))),
                       "data length", k) : k \in Idx(si)}
(* the streams of a stripe tile its index and data areas, the index streams first, and the
   streams of raw values are as long as the values *)
RawKinds == {"FLOAT", "DOUBLE", "BINARY"} \cup TextKinds
FooterAt(s) == Add(s.off, Add(s.il, s.dl))
Piece(s) == LET p == SelectSeq(Run.pieces, LAMBDA x : x[1] = FooterAt(s)) IN
            IF p = <<>> \/ NumOf(Len(p[1][2])) # s.fl THEN NoSection
            ELSE Section(p[1][2], 0, Len(p[1][2]), IF Run.comp = "NONE" THEN CNone ELSE CSnappy, <<>>)
StreamN(bs) == LET m == Parse(bs) IN
  [ok |-> m.ok /\ \A f \in 1..3 : Typed(m, f, 0), kind |-> Nat0(m, 1), col |-> Nat0(m, 2), len |-> Num0(m, 3)]
Tiles(s, k) ==
  LET sec == Piece(s)
      m   == IF sec.ok THEN Parse(sec.data) ELSE [ok |-> FALSE, f |-> <<>>]
      st  == LET x == Vals(m, 1) IN TLCEval([i \in Idx(x) |-> StreamN(x[i])])
      ind == SelectSeq(st, LAMBDA x : x.kind \in IndexKinds)
      dat == SelectSeq(st, LAMBDA x : x.kind \notin IndexKinds)
      datas == TLCEval({<<dat[i].col, dat[i].len>> : i \in {i \in Idx(dat) : dat[i].kind = 1}})
      withData == TLCEval({x[1] : x \in datas})
      withBits == TLCEval({dat[i].col : i \in {i \in Idx(dat) : dat[i].kind = 0 /\ dat[i].len # Zero}})
      DataIs(c, n) == IF c - 1 \in withData THEN <<c - 1, n>> \in datas ELSE n = Zero
  IN IF ~(m.ok /\ \A i \in Idx(st) : st[i].ok) THEN {<<Prop, "the stripe footer cannot be read", k, 0>>}
     ELSE Say(SumN([i \in Idx(ind) |-> ind[i].len]) = s.il, "index streams against their area", k)
          \cup Say(SumN([i \in Idx(dat) |-> dat[i].len]) = s.dl, "data streams against their area", k)
          \cup Say(ind \o dat = st, "order of the streams", k)
          \cup UNION {Say(Run.comp # "NONE" \/ cols[c].k \notin RawKinds \/ k > Len(closed)
                            \/ DataIs(c, closed[k].cnt[c].bytes), "length of a data stream", k) : c \in 1..NC}
          \cup UNION {Say((closed[k].cnt[c].all = closed[k].cnt[c].full) \/ c - 1 \in withBits, "no present stream", k) : c \in 1..NC}
AllTiles(v) == UNION {Tiles(v.stripes[k], k) : k \in Idx(v.stripes) \cap Idx(closed)}

(* counts, and total lengths *)
StatN(bs, c, all, full, b) == LET st == ParseStats(bs) IN
  st.ok /\ st.null = (all # full) /\ st.n = full
  /\ (cols[c].k \in {"BINARY"} \cup TextKinds /\ full # Zero => st.sum = <<b>>)
Summary(v) ==
  LET S(g(_)) == SumN([k \in Idx(closed) |-> g(closed[k].cnt)]) IN
  Say(Len(v.stats) = NC /\ \A c \in 1..NC : StatN(v.stats[c], c, S(LAMBDA x : x[c].all), S(LAMBDA x : x[c].full), S(LAMBDA x : x[c].bytes)),
      "file statistics", 0)
  \cup UNION {Say(Len(v.meta[k]) = NC /\ \A c \in 1..NC : LET x == closed[k].cnt[c] IN StatN(v.meta[k][c], c, x.all, x.full, x.bytes),
                  "stripe statistics", k) : k \in Idx(closed) \cap Idx(v.meta)}
  \cup Say(Len(v.meta) = Len(closed), "stripes in the metadata", 0)

JudgeStep ==
  /\ at = Len(Ev) + 1 /\ at' = 0
  /\ bad' = IF phase # "done" THEN {<<Prop, "never finished", 0, 0>>}
            ELSE LET v == TLCEval(View0) IN
                 IF ~v.ok THEN {<<Prop, "the tail cannot be read", 0, 0>>}
                 ELSE (IF Prop = "C06" THEN Summary(v) ELSE Layout(v) \cup AllTiles(v))
                      \cup Say(Run.len = out, "bytes in the sink", 0)
                      \cup Say(Run.flushed, "no flush after the last byte", 0)
  /\ UNCHANGED <<tr, cols, phase, cnt, held, rows, closed, out>>
Over == at = 0 /\ UNCHANGED vars
TNext == Step \/ JudgeStep \/ Over
TInit == Init
View == <<tr, at, bad>>
Holds == \A b \in bad : b[1] # Prop
Alias == [run |-> Run.id, event |-> at, complaints |-> bad]
=============================================================================
