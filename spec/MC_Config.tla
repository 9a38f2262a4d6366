----------------------------- MODULE MC_Config -----------------------------
(***************************************************************************)
(* All histories of up to MaxCalls configuration calls, and the writer     *)
(* that results: an object changed by each call (obj) against what can be  *)
(* said of the history alone (the last call of each sort counts).  Prints  *)
(* the histories as programs.  Wrong = TRUE: choosing a codec forgets the  *)
(* stripe size.                                                            *)
(***************************************************************************)
EXTENDS Config, Json, TLC
CONSTANTS MaxCalls, Wrong
VARIABLES calls, obj, state
vars == <<calls, obj, state>>

Pool == {<<"stride", 2>>, <<"stride", 3>>, <<"stripe", 0>>, <<"stripe", 40>>, <<"comp", "NONE", <<>>>>}
        \cup {<<"comp", "SNAPPY", x>> : x \in {<<>>, <<<<"block", 1>>>>, <<<<"block", 8388607>>>>, <<<<"block", 0>>>>,
                                               <<<<"block", 8388608>>>>, <<<<"block", 7>>, <<"block", 50>>>>}}
        \cup {<<"comp", "ZSTD", x>> : x \in {<<>>, <<<<"level", 1>>>>, <<<<"level", 22>>>>, <<<<"level", 0>>>>, <<<<"level", 23>>>>,
                                             <<<<"level", -1>>>>, <<<<"block", 9>>, <<"level", 2>>>>, <<<<"level", 2>>, <<"block", 9>>>>,
                                             <<<<"block", 8388607>>>>, <<<<"block", 0>>>>, <<<<"block", 8388608>>>>,
                                             <<<<"level", 23>>, <<"level", 3>>>>}}

Init == calls = <<>> /\ obj = Unset /\ state = "building"
Call == /\ state = "building" /\ Len(calls) < MaxCalls
        /\ \E c \in Pool :
             LET next == Apply(obj, c) IN
             /\ calls' = Append(calls, c)
             /\ obj' = IF Wrong /\ c[1] = "comp" THEN [next EXCEPT !.stripe = -1] ELSE next
             /\ state' = IF next.ok THEN "building" ELSE "refused"
Make == state = "building" /\ state' = "made" /\ UNCHANGED <<calls, obj>>
Next == Call \/ Make

Over == state # "building"
Latest(sort) == LET s == SelectSeq(calls, LAMBDA c : c[1] = sort) IN IF s = <<>> THEN <<sort, IF sort = "comp" THEN "NONE" ELSE -1, <<>>>> ELSE s[Len(s)]
Legal(c) == c[1] = "comp" => \A i \in 1..Len(c[3]) :
              c[3][i][2] > 0 /\ c[3][i][2] <= (IF c[3][i][1] = "block" THEN 8388607 ELSE 22)
Honoured == state = "made" =>
  /\ \A i \in 1..Len(calls) : Legal(calls[i])
  /\ obj.stride = Latest("stride")[2] /\ obj.stripe = Latest("stripe")[2]
  /\ LET c == Latest("comp") IN
     /\ obj.comp = c[2]
     /\ obj.block = LET b == SelectSeq(c[3], LAMBDA x : x[1] = "block") IN IF b = <<>> THEN -1 ELSE b[Len(b)][2]
RefusedForAReason == state = "refused" => ~Legal(calls[Len(calls)])
Printed == Over => PrintT(<<"CONF", ToJson(calls)>>)
=============================================================================
