-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Enumerates complete behaviours of OrcWriter as programs for the driver. *)
(* Rows are planned, the columns are filled with exactly what is owed (in  *)
(* pre-order), the batch is announced, and in the end the file finished.   *)
(* One line is printed per behaviour.                                      *)
(***************************************************************************)
EXTENDS OrcWriter, Json, TLC, FiniteSets

CONSTANTS Schemas,          \* type trees
          Pool(_),          \* cells tried for a scalar kind (driver tokens)
          MaxLen,           \* longest list or map
          MaxBatches, MaxRows, MaxTotal
VARIABLES prog, sch, want, batches
gvars == <<prog, sch, want, batches>>

Tree(k, kids) == [k |-> k, p |-> 0, s |-> 0, n |-> 0, kids |-> kids, names |-> [i \in 1..Len(kids) |-> <<>>]]
CInit == /\ \E i \in 1..Len(Schemas) : sch = i /\ WInit(Columns(Schemas[i]))
         /\ prog = <<>> /\ want = -1 /\ batches = 0
Total == FoldLeft(LAMBDA a, o : IF o[1] = "B" THEN a + o[2] ELSE a, 0, prog)

Options(c) ==
  {<<>>} \cup {<<v>> : v \in CASE cols[c].k \in {"LIST", "MAP"} -> 0..MaxLen
                               [] cols[c].k = "UNION" -> 0..(Len(cols[c].kids) - 1)
                               [] cols[c].k = "STRUCT" -> {1}
                               [] OTHER -> Pool(cols[c].k)}
Start == New /\ UNCHANGED gvars
Plan == /\ phase = "open" /\ want = -1 /\ batches < MaxBatches
        /\ \E r \in 0..MaxRows : Total + r <= MaxTotal /\ want' = r
        /\ UNCHANGED wvars /\ UNCHANGED <<prog, sch, batches>>
Deficit(c) == (IF c = 1 THEN rows + want ELSE owe[c]) - Len(cells[c])
Short == {c \in 1..NC : Deficit(c) > 0}
Fill == /\ want >= 0 /\ Short # {}
        /\ LET c == CHOOSE c \in Short : \A d \in Short : c <= d IN
           \E x \in Options(c) : Put(c, <<x>>) /\ prog' = Append(prog, <<"W", c - 1, x>>)
        /\ UNCHANGED <<sch, want, batches>>
Announce == /\ want >= 0 /\ Short = {}
            /\ Batch(want, FALSE)
            /\ prog' = Append(prog, <<"B", want>>) /\ want' = -1 /\ batches' = batches + 1
            /\ UNCHANGED sch
End == /\ want = -1 /\ Finish
       /\ prog' = Append(prog, <<"F">>)
       /\ PrintT(<<"PROG", sch, ToJson(prog')>>)
       /\ UNCHANGED <<sch, want, batches>>
CNext == Start \/ Plan \/ Fill \/ Announce \/ End
Aligned0 == phase = "done" => ClosedAligned /\ DoneIsEmpty
=============================================================================
