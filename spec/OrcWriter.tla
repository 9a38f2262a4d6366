------------------------------ MODULE OrcWriter ------------------------------
(***************************************************************************)
(* The writer as a state machine.  One action per public call:             *)
(*   New, RefuseNew Writer::new                                            *)
(*   Put            a typed write / write_null on one column               *)
(*   RefusePut      a write that is refused (a union tag without variant)  *)
(*   Batch          write_batch; `close` says whether the open stripe was  *)
(*                  handed to the sink                                     *)
(*   RefuseBatch    write_batch with columns out of step                   *)
(*   Finish, RefuseFinish                                                  *)
(*   Fail           a call during which the sink failed                    *)
(*   Dead           a call on a writer whose sink has failed               *)
(* Cells are sequences: <<>> is null, <<v>> the value v.                    *)
(***************************************************************************)
EXTENDS Schema

VARIABLES cols,     \* the columns, in pre-order
          phase,    \* new, open, done, refused, failed
          rows,     \* rows announced for the open stripe
          cells,    \* cells of the open stripe, per column
          owe,      \* cells each column has to hold, per column (root: 0)
          closed    \* handed-over stripes: [rows, cells]
wvars == <<cols, phase, rows, cells, owe, closed>>

NC == Len(cols)
None(cs) == [c \in 1..Len(cs) |-> <<>>]
Nil(cs) == [c \in 1..Len(cs) |-> 0]

WInit(cs) == /\ cols = cs /\ phase = "new" /\ rows = 0
             /\ cells = None(cs) /\ owe = Nil(cs) /\ closed = <<>>

New == /\ phase = "new"
       /\ phase' = "open"
       /\ UNCHANGED <<cols, rows, cells, owe, closed>>

RefuseNew == /\ phase = "new"
             /\ phase' = "refused"
             /\ UNCHANGED <<cols, rows, cells, owe, closed>>

(* a cell that a column accepts *)
Legal(col, x) == col.k = "UNION" /\ x # <<>> => x[1] < Len(col.kids)

Put(c, vs) ==
  /\ phase = "open"
  /\ \A i \in 1..Len(vs) : Legal(cols[c], vs[i])
  /\ cells' = [cells EXCEPT ![c] = @ \o vs]
  /\ owe' = IF cols[c].kids = <<>> THEN owe
            ELSE [d \in 1..NC |-> IF cols[d].par = c THEN Sat(owe[d], Owed(cols[c].k, cols[d].ord, vs)) ELSE owe[d]]
  /\ UNCHANGED <<cols, phase, rows, closed>>

(* a list or map so long that its lengths no longer add up may be refused at once;
   if it is not, no batch can be accepted any more *)
Uncountable(c, x) == cols[c].k \in {"LIST", "MAP"} /\ x # <<>>
                     /\ \E d \in 1..NC : cols[d].par = c /\ Sat(owe[d], x[1]) = Many
RefusePut(c, x) ==
  /\ phase = "open"
  /\ ~Legal(cols[c], x) \/ Uncountable(c, x)
  /\ UNCHANGED wvars

(* every column holds what the rows announced (r more than before) require *)
Aligned(r) ==
  /\ Len(cells[1]) = Sat(rows, r)
  /\ \A c \in 2..NC : Len(cells[c]) = owe[c]

Close(r) == closed' = Append(closed, [rows |-> rows + r, cells |-> cells])
Fresh == cells' = None(cols) /\ owe' = Nil(cols) /\ rows' = 0

Batch(r, close) ==
  /\ phase = "open"
  /\ Aligned(r)
  /\ IF close
     THEN rows + r > 0 /\ Close(r) /\ Fresh
     ELSE rows' = rows + r /\ UNCHANGED <<cells, owe, closed>>
  /\ UNCHANGED <<cols, phase>>

RefuseBatch(r) ==
  /\ phase = "open"
  /\ ~Aligned(r)
  /\ phase' = "refused"
  /\ UNCHANGED <<cols, rows, cells, owe, closed>>

Finish ==
  /\ phase = "open"
  /\ Aligned(0)
  /\ phase' = "done"
  /\ IF rows > 0 THEN Close(0) /\ Fresh ELSE UNCHANGED <<rows, cells, owe, closed>>
  /\ UNCHANGED cols

RefuseFinish ==
  /\ phase = "open"
  /\ ~Aligned(0)
  /\ phase' = "refused"
  /\ UNCHANGED <<cols, rows, cells, owe, closed>>

(* the sink failed during Writer::new, write_batch or finish *)
Fail ==
  /\ phase \in {"new", "open"}
  /\ phase' = "failed"
  /\ UNCHANGED <<cols, rows, cells, owe, closed>>

Dead == phase = "failed" /\ UNCHANGED wvars

(* ---- what the machine guarantees by itself ---- *)
StripeAligned(cs, st) ==
  /\ st.rows > 0
  /\ Len(st.cells[1]) = st.rows
  /\ \A c \in 2..Len(cs) :
        Len(st.cells[c]) = Owed(cs[cs[c].par].k, cs[c].ord, st.cells[cs[c].par])
ClosedAligned == \A i \in 1..Len(closed) : StripeAligned(cols, closed[i])
DoneIsEmpty == phase = "done" => rows = 0 /\ cells = None(cols)
=============================================================================
