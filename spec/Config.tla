------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* What a caller may ask of a writer.  A configuration is the outcome of a *)
(* sequence of calls; of each setting the last call counts, and a call     *)
(* with a value that the format cannot express is refused.                 *)
(*   <<"stride", n>>  <<"stripe", n>>  <<"comp", codec, calls>> with       *)
(*   calls <<"block", n>> and <<"level", n>> on the codec                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

(* a chunk header has 23 bits for the length *)
Blocks == 1..8388607
Levels == 1..22
(* a tag is one byte *)
MaxVariants == 256

(* -1: the default *)
Unset == [comp |-> "NONE", block |-> -1, stride |-> -1, stripe |-> -1, ok |-> TRUE]

Build(s, call) ==
  IF call[1] = "block" THEN [s EXCEPT !.block = call[2], !.ok = @ /\ call[2] \in Blocks]
  ELSE [s EXCEPT !.ok = @ /\ call[2] \in Levels]
Apply(s, call) ==
  CASE call[1] = "stride" -> [s EXCEPT !.stride = call[2]]
    [] call[1] = "stripe" -> [s EXCEPT !.stripe = call[2]]
    [] OTHER -> FoldLeft(Build, [s EXCEPT !.comp = call[2], !.block = -1], call[3])
Settings(calls) == FoldLeft(Apply, Unset, calls)

(* a list of columns as in Schema.tla *)
VariantsFit(cs) == \A c \in 1..Len(cs) : cs[c].k = "UNION" => Len(cs[c].kids) <= MaxVariants
=============================================================================
