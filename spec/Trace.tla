------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation.  TLC starts one behaviour per recorded run and takes  *)
(* one OrcWriter action per recorded call, with the recorded arguments and *)
(* outcome.  A call that no action explains ends the behaviour with a      *)
(* complaint.  When the recorded run is over, the file is judged.          *)
(*   Prop    the property whose check this is                              *)
(* Tags of runs: "" content; "same" the file must equal that of the run    *)
(* tr.ref; "sink" the same, under a scripted sink; "fault" a sink that     *)
(* fails, tr.ref is the run without failure; "twin" no judgement of its    *)
(* own (a reference run of other runs).                                    *)
(***************************************************************************)
EXTENDS OrcWriter, Judge, Config, Json, IOUtils

CONSTANT Prop

Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr,      \* index of the run
          at,      \* next event; 0 once judged
          out,     \* bytes in the sink
          marks,   \* see Judge, C10
          bad,     \* complaints <<property, what, stripe, column>>
          known    \* known findings seen in this run
tvars == <<tr, at, out, marks, bad, known>>

(* a run that records how it was configured is judged by what that comes to *)
Conf == Settings(Runs[tr].conf)
Run == IF Runs[tr].conf = <<>> THEN Runs[tr]
       ELSE LET s == Conf IN
            [Runs[tr] EXCEPT !.comp = s.comp, !.block = s.block, !.stride = s.stride, !.stripe = s.stripe,
                             !.strideN = NumOf(IF s.stride < 0 THEN 10000 ELSE s.stride)]
Ev == Run.ev
E == Ev[at]

TInit == /\ tr \in 1..Len(Runs)
         /\ WInit(Columns(Runs[tr].schema))
         /\ at = 1 /\ out = 0 /\ marks = <<>> /\ bad = {} /\ known = {}

(* ---- one call ---- *)
Faulty == \E i \in 1..Len(E.io) : E.io[i][2] = -2 \/ (E.io[i][1] > 0 /\ E.io[i][2] = 0)
Grew == E.out > out

MarkNow(r, close) ==
  IF Prop \notin {"C10", "C17"} THEN marks' = marks
  ELSE marks' = Append(marks, [stripe |-> Len(closed) + 1, closed |-> close, out |-> E.out,
                               n |-> [c \in 1..NC |-> Len(cells[c])],
                               nn |-> [c \in 1..NC |-> Len(NonNull(cells[c]))]])

Acceptable == Conf.ok /\ VariantsFit(cols)
IsNew    == E.e = "new" /\ E.r = "ok" /\ ~Faulty /\ Acceptable /\ New /\ marks' = marks
IsNoNew  == E.e = "new" /\ E.r \in {"panic", "err"} /\ E.out = 0 /\ ~Acceptable /\ RefuseNew /\ marks' = marks
IsPut    == E.e = "put" /\ E.r = "ok" /\ Put(E.c + 1, E.vs) /\ marks' = marks
IsRefuse == E.e = "put" /\ E.r = "panic" /\ RefusePut(E.c + 1, E.vs[1]) /\ marks' = marks
IsBatch  == /\ E.e = "batch" /\ E.r = "ok" /\ ~Faulty
            /\ Batch(E.n, Grew)
            /\ MarkNow(E.n, Grew)
IsNoBatch  == E.e = "batch" /\ E.r \in {"panic", "err"} /\ ~Faulty /\ RefuseBatch(E.n) /\ marks' = marks
IsFinish   == E.e = "finish" /\ E.r = "ok" /\ ~Faulty /\ Finish /\ marks' = marks
IsNoFinish == E.e = "finish" /\ E.r \in {"panic", "err"} /\ ~Faulty /\ RefuseFinish /\ marks' = marks
IsFail == /\ E.e \in {"new", "batch", "finish"} /\ E.r = "err" /\ Faulty /\ Fail /\ marks' = marks
IsDead == /\ E.e \in {"put", "batch", "finish"} /\ (E.e # "put" => E.r \in {"err", "panic"}) /\ Dead /\ marks' = marks

Explained == \/ IsNew \/ IsNoNew \/ IsPut \/ IsRefuse \/ IsBatch \/ IsNoBatch
             \/ IsFinish \/ IsNoFinish \/ IsFail \/ IsDead

(* which property an unexplained call breaks; a call that fails or succeeds for
   no reason leaves nothing to judge and breaks the property under check *)
Blame ==
  IF phase = "failed" THEN "C13"
  ELSE IF E.e = "put" /\ E.r = "ok" THEN "C11"
  ELSE IF E.e \in {"new", "batch", "finish"} /\ E.r = "ok" /\ Faulty THEN "C13"
  ELSE IF E.e \in {"batch", "finish"} /\ E.r = "ok" THEN
     (IF phase = "open" /\ Aligned(IF E.e = "batch" THEN E.n ELSE 0) THEN "C10" ELSE "C11")
  ELSE Prop

Step == /\ at > 0 /\ at <= Len(Ev)
        /\ \/ /\ Explained
              /\ at' = at + 1
              /\ bad' = bad
           \/ /\ ~ENABLED Explained
              /\ at' = 0
              /\ bad' = {<<Blame, "call not explained", at, 0>>}
              /\ marks' = marks
              /\ UNCHANGED wvars
        /\ out' = IF E.e = "put" THEN out ELSE E.out
        /\ UNCHANGED <<tr, known>>

(* ---- the end of a run ---- *)
RefRun == Runs[Run.ref]
SameFile == Run.fin /\ RefRun.fin /\ Run.file = RefRun.file
Complain(p, s) == {<<p, x[1], x[2], x[3]>> : x \in s}
If(cond, what) == IF cond THEN {} ELSE {<<what, 0, 0>>}

ContentProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C15", "C17"}

JudgeContent ==
  LET v == TLCEval(Open(Run)) IN
  CASE Prop = "C01" -> J01(Run, v, cols, closed)
    [] Prop = "C02" -> J02(Run, v, cols, closed)
    [] Prop = "C03" -> J03(Run, v, cols, closed)
    [] Prop = "C04" -> J04(Run, v, cols, closed)
    [] Prop = "C05" -> J05(Run, v, cols, closed)
    [] Prop = "C06" -> J06(Run, v, cols, closed)
    [] Prop = "C07" -> J07(Run, v, cols, closed)
    [] Prop = "C08" -> J08(Run, v, cols, closed)
    [] Prop = "C09" -> J09(Run, v, cols, closed)
    [] Prop = "C10" -> J10(Run, v, cols, closed, marks)
    [] Prop = "C15" -> J15(Run, v, cols, closed)
    [] Prop = "C17" -> J17(Run, v, cols, closed, marks)

(* everything a reader can see of the content *)
JudgeReadable ==
  LET v == TLCEval(Open(Run)) IN
  J02(Run, v, cols, closed) \cup J06(Run, v, cols, closed) \cup J09(Run, v, cols, closed)

Verdict ==
  IF Run.tag = "fault"
  THEN If(Len(Run.file) <= Len(RefRun.file) /\ Run.file = SubSeq(RefRun.file, 1, Len(Run.file)), "not a prefix")
       \cup If(phase = "done" => Run.file = RefRun.file, "success with another file")
  ELSE IF Run.tag = "twin" THEN {}
  ELSE IF phase = "refused" /\ Len(Ev) = 1 THEN If(Run.file = <<>>, "bytes without a writer")
  ELSE IF phase # "done" THEN {}
  ELSE IF Run.tag = "same" THEN If(SameFile, "file differs from the reference run")
       \cup (IF Prop \in {"C11", "C16"} THEN JudgeReadable ELSE {})
  ELSE IF Run.tag = "sink" THEN If(SameFile, "file differs from the reference run")
       \cup If(Run.flushed, "no flush after the last byte")
  ELSE IF Prop \in ContentProps THEN JudgeContent
  ELSE IF Prop \in {"C11", "C16"} THEN JudgeReadable
  ELSE {}

JudgeStep ==
  /\ at = Len(Ev) + 1
  /\ at' = 0
  /\ bad' = Complain(Prop, Verdict)
  /\ known' = IF Prop = "C09" /\ phase = "done" /\ Run.tag = ""
                 /\ (LET v == Open(Run) IN Readable(v, closed) /\ OwnGroups(Run, v, cols, closed) # {})
              THEN {"D10"} ELSE {}
  /\ known' # {} => PrintT(<<"KNOWN", "D10", Run.id>>)
  /\ UNCHANGED <<tr, out, marks>> /\ UNCHANGED wvars

Over == at = 0 /\ UNCHANGED tvars /\ UNCHANGED wvars

TNext == Step \/ JudgeStep \/ Over

(* the property: a recorded run draws no complaint *)
Holds == \A b \in bad : b[1] # Prop
(* complaints about other properties are listed, they do not count *)
NoKnown == known = {}
View == <<tr, at, bad, known>>
Alias == [run |-> Run.id, event |-> at, complaints |-> bad, seen |-> known]
=============================================================================
