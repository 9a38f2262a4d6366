-------------------------------- MODULE Ways --------------------------------
(***************************************************************************)
(* Two writers that are given the same cells (C14, C16).  The columns get  *)
(* their cells in any interleaving, the rows of a stripe are announced in  *)
(* any division into batches, each cell comes through either of two entry  *)
(* points, and the writers take turns in one process.  The left writer     *)
(* and the right writer choose independently; once both have finished,     *)
(* their files have to be equal.  A column is a byte encoder (Encoders)    *)
(* with row groups of Stride cells, whose index records the positions.     *)
(***************************************************************************)
EXTENDS Encoders

CONSTANTS Rows,      \* cells per column and stripe
          NCols, Stride, Cells,
          Share      \* "" or what the writers wrongly let show: "flush" a batch flushes the
                     \* encoders, "process" one writer's state reaches the other, "order" the
                     \* stripe keeps the order of first writes, "entry" the second entry point
                     \* does not count towards the row group
VARIABLES plan, w, shared
vars == <<plan, w, shared>>

Col0 == [e |-> ByteInit, n |-> 0, g |-> 0, ix |-> <<>>]
W0 == [col |-> [c \in 1..NCols |-> Col0], batched |-> 0, order |-> <<>>, done |-> FALSE]
Init == /\ plan \in [1..NCols -> [1..Rows -> Cells]]
        /\ w = [s \in {"l", "r"} |-> W0] /\ shared = 0

Put(s, c, way) ==
  /\ ~w[s].done /\ w[s].col[c].n < Rows
  /\ LET k  == w[s].col[c]
         x  == plan[c][k.n + 1]
         ix == IF k.g = 0 THEN Append(k.ix, BytePos(k.e)) ELSE k.ix
         e1 == ByteWrite(k.e, IF Share = "process" THEN (x + shared) % W ELSE x)
         g1 == IF Share = "entry" /\ way = 2 THEN k.g ELSE (k.g + 1) % Stride
     IN w' = [w EXCEPT ![s].col[c] = [e |-> e1, n |-> k.n + 1, g |-> g1, ix |-> ix],
                       ![s].order = IF Share = "order" /\ k.n = 0 THEN Append(@, c) ELSE @]
  /\ shared' = IF Share = "process" /\ s = "l" THEN 1 ELSE shared
  /\ UNCHANGED plan
(* rows may be announced only once every column holds them *)
Batch(s) ==
  /\ ~w[s].done
  /\ \E r \in 1..Rows : /\ w[s].batched < r
                        /\ \A c \in 1..NCols : w[s].col[c].n = r
                        /\ w' = [w EXCEPT ![s].batched = r,
                                          ![s].col = IF Share = "flush" THEN [c \in 1..NCols |-> [@[c] EXCEPT !.e = ByteFlush(@)]] ELSE @]
  /\ UNCHANGED <<plan, shared>>
Finish(s) == /\ ~w[s].done /\ w[s].batched = Rows
             /\ w' = [w EXCEPT ![s].done = TRUE] /\ UNCHANGED <<plan, shared>>
(* Writers share nothing, so that the left one may as well go first, unless that is
   what the variant is about. *)
Turn(s) == s = "l" \/ w["l"].done
Next == \E s \in {"l", "r"} : Turn(s) /\ ((\E c \in 1..NCols, way \in 1..2 : Put(s, c, way)) \/ Batch(s) \/ Finish(s))

FileOf(x) == [data |-> [c \in 1..NCols |-> ByteFlush(x.col[c].e).out], index |-> [c \in 1..NCols |-> x.col[c].ix], order |-> x.order]
SameFile == w["l"].done /\ w["r"].done => FileOf(w["l"]) = FileOf(w["r"])
Meaning == w["l"].done /\ Share = "" => \A c \in 1..NCols : Expand(FileOf(w["l"]).data[c]) = plan[c]
=============================================================================
