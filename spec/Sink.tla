-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* How the writer talks to its sink: every section is delivered by         *)
(* write_all, a loop over write calls which the sink may answer by taking  *)
(* only part, by Interrupted (retry), by taking nothing (an error) or by   *)
(* an error; CountWrite counts what was taken; recorded offsets come from  *)
(* that count.  The user makes the calls new, batch (hands one stripe      *)
(* over), ..., finish, and goes on calling after an error.                 *)
(* File bytes are numbered 1..Total, so that a repeated, lost or reordered *)
(* byte shows.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS Header,      \* length of the header
          Stripes,     \* per stripe the lengths of its sections
          TailLens,        \* lengths of metadata, footer, postscript, length byte
          MaxFaults,   \* refusals of any kind per run
          MaxCalls,    \* calls of the user after new
          Plain,       \* sections written by a single write call (before fix b2c092d)
          Poison       \* FALSE: no memory of a failed hand-over (before fix 6fe37bf)

VARIABLES call,      \* "idle", "new", "batch", "finish", "over"
          todo,      \* sections still to write in this call: [at, len, rec]
          given,     \* bytes delivered
          count,     \* CountWrite.count
          marks,     \* positions recorded before each section
          stripe,    \* stripes handed over
          failed,    \* a hand-over has failed
          faults, calls, flushed, rets
vars == <<call, todo, given, count, marks, stripe, failed, faults, calls, flushed, rets>>

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Sum2(s) == FoldLeft(LAMBDA a, x : a + Sum(x), 0, s)
Off(k) == Header + Sum2(SubSeq(Stripes, 1, k - 1))
Sections(at, ls, kind) ==
  [i \in 1..Len(ls) |-> [at |-> at + Sum(SubSeq(ls, 1, i - 1)), len |-> ls[i], done |-> 0, kind |-> kind]]
Total(k) == Header + Sum2(SubSeq(Stripes, 1, k)) + Sum(TailLens)
(* after k stripes the tail follows; its bytes are numbered from 1000 *)
TailAt == 1000

Init == /\ call = "new" /\ todo = Sections(0, <<Header>>, "header")
        /\ given = <<>> /\ count = 0 /\ marks = <<>> /\ stripe = 0 /\ failed = FALSE
        /\ faults = 0 /\ calls = 0 /\ flushed = FALSE /\ rets = <<>>

Ret(r) == rets' = Append(rets, <<call, r>>)
End(r) == /\ Ret(r)
          /\ call' = IF (call = "new" /\ r = "err") \/ call = "finish" THEN "over" ELSE "idle"
          /\ failed' = (failed \/ (r = "err" /\ call = "batch" /\ Poison))

IsPlain(s) == Plain /\ s.kind = "header"

(* one write call of the section in hand *)
Take(k) ==
  /\ call \in {"new", "batch", "finish"} /\ todo # <<>>
  /\ LET s == todo[1] IN
     /\ k \in 1..(s.len - s.done)
     /\ k < s.len - s.done => faults < MaxFaults
     /\ faults' = IF k < s.len - s.done THEN faults + 1 ELSE faults
     /\ marks' = IF s.done = 0 THEN Append(marks, <<s.kind, s.at, count>>) ELSE marks
     /\ given' = given \o [i \in 1..k |-> s.at + s.done + i]
     /\ count' = count + k /\ flushed' = FALSE
     /\ todo' = IF s.done + k = s.len \/ IsPlain(s) THEN SubSeq(todo, 2, Len(todo))
                ELSE <<[s EXCEPT !.done = @ + k]>> \o SubSeq(todo, 2, Len(todo))
  /\ UNCHANGED <<call, stripe, failed, calls, rets>>
Interrupted ==
  /\ call \in {"new", "batch", "finish"} /\ todo # <<>> /\ faults < MaxFaults
  /\ faults' = faults + 1
  /\ IF IsPlain(todo[1]) THEN End("err") ELSE UNCHANGED <<call, rets, failed>>
  /\ UNCHANGED <<todo, given, count, marks, stripe, calls, flushed>>
(* an error, or nothing taken *)
Break ==
  /\ call \in {"new", "batch", "finish"} /\ todo # <<>> /\ faults < MaxFaults
  /\ faults' = faults + 1 /\ End("err") /\ todo' = <<>>
  /\ UNCHANGED <<given, count, marks, stripe, calls, flushed>>
FlushFails ==
  /\ call = "finish" /\ todo = <<>> /\ faults < MaxFaults
  /\ faults' = faults + 1 /\ End("err")
  /\ UNCHANGED <<todo, given, count, marks, stripe, calls, flushed>>
Return ==
  /\ call \in {"new", "batch", "finish"} /\ todo = <<>>
  /\ End("ok")
  /\ flushed' = IF call = "finish" THEN TRUE ELSE flushed
  /\ stripe' = IF call = "batch" THEN stripe + 1 ELSE stripe
  /\ UNCHANGED <<todo, given, count, marks, faults, calls>>

(* the user's next call *)
Refuse(c) == /\ failed /\ rets' = Append(rets, <<c, "err">>)
             /\ call' = IF c = "finish" THEN "over" ELSE "idle"
             /\ UNCHANGED <<todo, given, count, marks, stripe, failed, faults, flushed>>
Batch ==
  /\ call = "idle" /\ calls < MaxCalls /\ stripe < Len(Stripes) /\ calls' = calls + 1
  /\ \/ Refuse("batch")
     \/ /\ ~failed /\ call' = "batch"
        /\ todo' = Sections(Off(stripe + 1), Stripes[stripe + 1], "stripe")
        /\ UNCHANGED <<given, count, marks, stripe, failed, faults, flushed, rets>>
FinishCall ==
  /\ call = "idle" /\ calls' = calls + 1
  /\ \/ Refuse("finish")
     \/ /\ ~failed /\ call' = "finish"
        /\ todo' = Sections(TailAt, TailLens, "tail")
        /\ UNCHANGED <<given, count, marks, stripe, failed, faults, flushed, rets>>

Next == \/ \E k \in 1..9 : Take(k)
        \/ Interrupted \/ Break \/ FlushFails \/ Return \/ Batch \/ FinishCall
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- properties ---- *)
Image(k) == [i \in 1..Off(k + 1) |-> i] \o [i \in 1..Sum(TailLens) |-> TailAt + i]
Ok(c) == \E i \in 1..Len(rets) : rets[i] = <<c, "ok">>
Err == {i \in 1..Len(rets) : rets[i][2] = "err"}
SuccessIsComplete == Ok("finish") => given = Image(stripe) /\ flushed
PrefixAlways == \E k \in stripe..Len(Stripes) : Len(given) <= Len(Image(k)) /\ given = SubSeq(Image(k), 1, Len(given))
NoSuccessAfterError == \A i \in Err : \A j \in i..Len(rets) : rets[j][2] = "err"
NoErrorWithoutCause == Err # {} => faults > 0
CountTrue == count = Len(given)
(* recorded positions are those of the bytes, in a file that is finished *)
MarksTrue == Ok("finish") => \A i \in 1..Len(marks) :
   marks[i][3] = IF marks[i][1] = "tail" THEN Off(stripe + 1) + marks[i][2] - TailAt ELSE marks[i][2]
(* calls come back: with finitely many refusals no call hangs *)
ComesBack == [](call \in {"new", "batch", "finish"} => <>(call \in {"idle", "over"}))
=============================================================================
