------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* How offsets, lengths and totals arise (stripe.rs, writer.rs).  A stripe *)
(* is handed over section by section - per column a row index, then per    *)
(* column the present stream, if it has nulls, and the value streams, then *)
(* the stripe footer - and the positions of the sink are read off between  *)
(* them.  Section lengths are arbitrary; what is checked is that a reader  *)
(* who has nothing but the recorded numbers finds every section where it   *)
(* was written (C04) and every column's streams under its number (C05).    *)
(* Bytes carry the identity of their section.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

CONSTANTS NCols, MaxStripes, Lens, MaxRows, HeaderLen,
          Wrong    \* "" or the defect planted: "content" the content length lacks the last
                   \* stripe; "order" data streams listed before the index streams;
                   \* "offset" the stripe offset is not moved by its footer;
                   \* "skip" a present stream is written but not listed
VARIABLES file, infos, rows, phase, foot, truth
vars == <<file, infos, rows, phase, foot, truth>>

Sec(id, n) == [i \in 1..n |-> id]
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

Init == file = Sec(<<"header">>, HeaderLen) /\ infos = <<>> /\ rows = 0 /\ phase = "open"
        /\ foot = <<>> /\ truth = <<>>

Offset == HeaderLen + Sum([i \in 1..Len(infos) |-> infos[i].il + infos[i].dl + (IF Wrong = "offset" THEN 0 ELSE infos[i].fl)])

Stripe(r, il, dl, hasP, fl) ==
  LET k == Len(infos) + 1
      ix == [c \in 1..NCols |-> [id |-> <<k, c, "index">>, n |-> il[c]]]
      da == FoldLeft(LAMBDA a, c : a \o (IF hasP[c] THEN <<[id |-> <<k, c, "present">>, n |-> 1]>> ELSE <<>>)
                                     \o <<[id |-> <<k, c, "data">>, n |-> dl[c]]>>,
                     <<>>, [c \in 1..NCols |-> c])
      secs == ix \o da \o <<[id |-> <<k, 0, "footer">>, n |-> fl]>>
      bytes == FoldLeft(LAMBDA a, s : a \o Sec(s.id, s.n), <<>>, secs)
      seen == SelectSeq(da, LAMBDA s : Wrong # "skip" \/ s.id[3] # "present")
      list == IF Wrong = "order" THEN seen \o ix ELSE ix \o seen
  IN /\ file' = file \o bytes
     /\ infos' = Append(infos, [off |-> Offset, rows |-> r, il |-> Sum(il), fl |-> fl,
                                dl |-> Len(bytes) - Sum(il) - fl,
                                streams |-> [i \in 1..Len(list) |-> [col |-> list[i].id[2], kind |-> list[i].id[3], len |-> list[i].n]]])
     /\ truth' = Append(truth, [rows |-> r, hasP |-> hasP])
     /\ rows' = rows + r

HandOver ==
  /\ phase = "open" /\ Len(infos) < MaxStripes
  /\ \E r \in 1..MaxRows, il, dl \in [1..NCols -> Lens], hasP \in [1..NCols -> BOOLEAN], fl \in Lens :
        fl > 0 /\ Stripe(r, il, dl, hasP, fl)
  /\ UNCHANGED <<phase, foot>>
Finish ==
  /\ phase = "open" /\ phase' = "done"
  /\ \E ml \in Lens, tl \in Lens :
       /\ tl > 0
       /\ foot' = [meta |-> ml, foot |-> tl, header |-> HeaderLen,
                   content |-> Sum([i \in 1..Len(infos) |-> IF Wrong = "content" /\ i = Len(infos) THEN 0
                                                            ELSE infos[i].il + infos[i].dl + infos[i].fl]),
                   rows |-> rows, n |-> Len(infos)]
       /\ file' = file \o Sec(<<"metadata">>, ml) \o Sec(<<"tail">>, tl) \o Sec(<<"postscript">>, 2) \o <<<<"length">>>>
  /\ UNCHANGED <<infos, rows, truth>>
Next == HandOver \/ Finish

(* ---- a reader with nothing but the recorded numbers ---- *)
At(off, n, id) == off >= 0 /\ off + n <= Len(file) /\ \A i \in 1..n : file[off + i] = id
Place(s, k) == FoldLeft(LAMBDA a, x : [at |-> a.at + x.len, ok |-> a.ok /\ At(a.at, x.len, <<k, x.col, x.kind>>)],
                        [at |-> s.off, ok |-> TRUE], s.streams)
StripeFound(k) ==
  LET s == infos[k] p == Place(s, k) IN
  /\ p.ok
  /\ p.at = s.off + s.il + s.dl                       \* the streams tile index and data
  /\ At(p.at, s.fl, <<k, 0, "footer">>)
  /\ s.off = IF k = 1 THEN HeaderLen ELSE infos[k - 1].off + infos[k - 1].il + infos[k - 1].dl + infos[k - 1].fl
  /\ s.rows = truth[k].rows
Found == \A k \in 1..Len(infos) : StripeFound(k)
Listed == \A k \in 1..Len(infos) :
   LET s == infos[k].streams IN
   /\ \A c \in 1..NCols : /\ Cardinality({i \in 1..Len(s) : s[i].col = c /\ s[i].kind = "index"}) = 1
                          /\ Cardinality({i \in 1..Len(s) : s[i].col = c /\ s[i].kind = "data"}) = 1
                          /\ Cardinality({i \in 1..Len(s) : s[i].col = c /\ s[i].kind = "present"}) = (IF truth[k].hasP[c] THEN 1 ELSE 0)
   /\ \A i, j \in 1..Len(s) : (i < j /\ s[j].kind = "index") => s[i].kind = "index"
(* every byte belongs to exactly one part *)
TailFound ==
  phase = "done" =>
  LET ps == Len(file) - 3
      fs == ps - foot.foot
      ms == fs - foot.meta
  IN /\ file[Len(file)] = <<"length">> /\ At(ps, 2, <<"postscript">>)
     /\ At(fs, foot.foot, <<"tail">>) /\ At(ms, foot.meta, <<"metadata">>)
     /\ At(0, foot.header, <<"header">>)
     /\ foot.header + foot.content = ms
     /\ foot.rows = Sum([k \in 1..Len(truth) |-> truth[k].rows])
     /\ foot.n = Len(infos)
=============================================================================
