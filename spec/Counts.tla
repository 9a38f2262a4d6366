------------------------------- MODULE Counts -------------------------------
(***************************************************************************)
(* The count check as the code does it (verify_row_count), run beside the  *)
(* state machine OrcWriter.  The code keeps no cells, only counters:       *)
(*   vals     cells of the column       (num_values)                       *)
(*   pres     non-null cells            (num_present)                      *)
(*   elems    summed lengths            (num_child_values; lists, maps)    *)
(*   tags     cells per variant         (child_counts; unions)             *)
(* CheckExact: the code's verdict is that of OrcWriter, for every history. *)
(***************************************************************************)
EXTENDS OrcWriter

CONSTANTS Schemas,     \* sequence of type trees
          LeafVals, MaxLen, MaxCells, MaxRows, MaxStripes,
          LooseTag     \* TRUE: tag equal to the number of variants passes the
                       \* range check (before fix 6e5210b)
VARIABLES vals, pres, elems, tags
cvars == <<vals, pres, elems, tags>>

Node(k, kids) == [k |-> k, p |-> 0, s |-> 0, n |-> 0, kids |-> kids, names |-> [i \in 1..Len(kids) |-> <<>>]]
Zeros(cs) == [c \in 1..Len(cs) |-> 0]
CInit == \E i \in 1..Len(Schemas) :
   /\ WInit(Columns(Schemas[i]))
   /\ vals = Zeros(Columns(Schemas[i])) /\ pres = vals /\ elems = vals
   /\ tags = [c \in 1..Len(vals) |-> <<>>]

Cells(c) == CASE cols[c].k \in {"LIST", "MAP"} -> 0..MaxLen
              [] cols[c].k = "UNION" -> 0..(Len(cols[c].kids) - 1)
              [] cols[c].k = "STRUCT" -> {1}
              [] OTHER -> LeafVals
Count(c, x) ==
  /\ vals' = [vals EXCEPT ![c] = @ + 1]
  /\ pres' = IF x = <<>> THEN pres ELSE [pres EXCEPT ![c] = @ + 1]
  /\ elems' = IF x # <<>> /\ cols[c].k \in {"LIST", "MAP"} THEN [elems EXCEPT ![c] = @ + x[1]] ELSE elems
  /\ tags' = IF x # <<>> /\ cols[c].k = "UNION" THEN [tags EXCEPT ![c] = Append(@, x[1])] ELSE tags
Reset == vals' = Zeros(cols) /\ pres' = Zeros(cols) /\ elems' = Zeros(cols) /\ tags' = [c \in 1..NC |-> <<>>]

NTag(c, o) == Len(SelectSeq(tags[c], LAMBDA t : t = o - 1))
(* verify_row_count of column c, told to expect n *)
RECURSIVE Verify(_, _)
Verify(c, n) ==
  /\ vals[c] = n
  /\ \A i \in 1..Len(cols[c].kids) :
       Verify(cols[c].kids[i],
              CASE cols[c].k = "STRUCT" -> pres[c]
                [] cols[c].k = "UNION" -> NTag(c, i)
                [] OTHER -> elems[c])
TagPasses(c, t) == IF LooseTag THEN t <= Len(cols[c].kids) ELSE t < Len(cols[c].kids)

DoNew == New /\ UNCHANGED cvars
DoPut == \E c \in 1..NC : \E x \in {<<>>} \cup {<<v>> : v \in Cells(c)} :
           Len(cells[c]) < MaxCells /\ Put(c, <<x>>) /\ Count(c, x)
DoBatch == \E r \in 0..MaxRows : \E cl \in BOOLEAN :
             /\ rows + r <= MaxRows /\ (cl => Len(closed) < MaxStripes) /\ Batch(r, cl)
             /\ IF cl THEN Reset ELSE UNCHANGED cvars
DoRefuse == \E r \in 0..MaxRows : RefuseBatch(r) /\ UNCHANGED cvars
DoFinish == Finish /\ UNCHANGED cvars
DoNoFinish == RefuseFinish /\ UNCHANGED cvars
CNext == DoNew \/ DoPut \/ DoBatch \/ DoRefuse \/ DoFinish \/ DoNoFinish

CheckExact == phase = "open" => \A r \in 0..MaxRows : Verify(1, rows + r) <=> Aligned(r)
TagExact == phase = "open" => \A c \in 1..NC : cols[c].k = "UNION" =>
               \A t \in 0..(Len(cols[c].kids) + 1) : TagPasses(c, t) <=> Legal(cols[c], <<t>>)
(* what is owed is what the parents hold *)
OweExact == \A c \in 2..NC : owe[c] = Owed(cols[cols[c].par].k, cols[c].ord, cells[cols[c].par])
(* cells accepted and announced are in exactly one stripe *)
Invs == CheckExact /\ TagExact /\ OweExact /\ ClosedAligned /\ (phase = "done" => rows = 0)
=============================================================================
