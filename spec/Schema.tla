------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* Schemas, flattened to columns in pre-order, and what a column owes to   *)
(* its parent.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

(* t: [k, p, s, n, names, kids].  Result: columns in pre-order, each with the
   (1-based) index of its parent (0: root), its place among its siblings and
   its children. *)
RECURSIVE Flat(_, _, _, _)
Flat(t, par, ord, at) ==
  LET kid(acc, i) == LET sub == Flat(t.kids[i], at, i, at + 1 + Len(acc.cols)) IN
                     [cols |-> acc.cols \o sub, ids |-> Append(acc.ids, at + 1 + Len(acc.cols))]
      r == FoldLeft(kid, [cols |-> <<>>, ids |-> <<>>], [i \in 1..Len(t.kids) |-> i])
  IN <<[k |-> t.k, p |-> t.p, s |-> t.s, n |-> t.n, names |-> t.names,
        par |-> par, ord |-> ord, kids |-> r.ids]>> \o r.cols
Columns(t) == Flat(t, 0, 0, 1)

KindCode(k) == CASE k = "BOOLEAN" -> 0 [] k = "SHORT" -> 2 [] k = "INT" -> 3 [] k = "LONG" -> 4
                 [] k = "FLOAT" -> 5 [] k = "DOUBLE" -> 6 [] k = "STRING" -> 7 [] k = "BINARY" -> 8
                 [] k = "TIMESTAMP" -> 9 [] k = "LIST" -> 10 [] k = "MAP" -> 11 [] k = "STRUCT" -> 12
                 [] k = "UNION" -> 13 [] k = "DECIMAL" -> 14 [] k = "DATE" -> 15
                 [] k = "VARCHAR" -> 16 [] k = "CHAR" -> 17

IntKinds  == {"SHORT", "INT", "LONG", "DATE"}
TextKinds == {"STRING", "CHAR", "VARCHAR"}
NestKinds == {"STRUCT", "LIST", "MAP", "UNION"}

IsNull(x) == x = <<>>
NonNull(cells) == SelectSeq(cells, LAMBDA x : x # <<>>)

(* sums beyond what any run holds stay there (TLC has 32 bits; the driver records
   every larger length or number of rows as Many) *)
Many == 1000000000
Sat(a, b) == IF a > Many - b THEN Many ELSE a + b

(* cells that the o-th child must hold for these cells of a column of kind k *)
Owed(k, o, cells) ==
  CASE k = "STRUCT" -> FoldLeft(LAMBDA a, x : IF x = <<>> THEN a ELSE a + 1, 0, cells)
    [] k = "UNION" -> FoldLeft(LAMBDA a, x : IF x # <<>> /\ x[1] = o - 1 THEN a + 1 ELSE a, 0, cells)
    [] k \in {"LIST", "MAP"} -> FoldLeft(LAMBDA a, x : IF x = <<>> THEN a ELSE Sat(a, x[1]), 0, cells)
    [] OTHER -> 0
=============================================================================
