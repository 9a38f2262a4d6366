------------------------------ MODULE EncPaths ------------------------------
(***************************************************************************)
(* The control graph of the encoders with the real limits of the format    *)
(* (128 literals, runs of 3..130).  TLC walks it breadth first under a     *)
(* view that forgets the values, and prints for every transition the       *)
(* values of a shortest path through it.  A choice is made relative to the *)
(* encoder's state: continue the pending pattern, break it with a delta a  *)
(* run could express, break it with one it could not.                       *)
(***************************************************************************)
EXTENDS Encoders, TLC

CONSTANTS Enc,       \* "int" or "byte"
          MaxPath    \* longest path
VARIABLES e, hist, steps
vars == <<e, hist, steps>>

LastV == IF hist = <<>> THEN 0 ELSE hist[Len(hist)]
LastD == IF Len(hist) < 2 THEN 0 ELSE LastV - hist[Len(hist) - 1]
Next0(ch) ==
  CASE Enc = "byte" -> (CASE ch = 1 -> LastV [] ch = 2 -> (LastV + 1) % 256 [] OTHER -> (LastV + 2) % 256)
    [] ch = 1 -> LastV + LastD
    [] ch = 2 -> LastV + (IF LastD = 5 THEN 7 ELSE 5)
    [] OTHER -> LastV + (IF LastD = 1000 THEN -1000 ELSE 1000)
View == IF Enc = "byte"
        THEN <<Len(e.buf), e.run, IF Len(hist) < 2 THEN 0 ELSE IF LastD = 0 THEN 1 ELSE 2, e.out = <<>>>>
        ELSE <<Len(e.buf), e.run, IF Len(e.buf) < 2 THEN 0 ELSE IF e.delta \in (-DNeg)..DHi THEN 1 ELSE 2, e.out = <<>>>>

Init == e = (IF Enc = "byte" THEN ByteInit ELSE IntInit) /\ hist = <<>> /\ steps = <<>>
Step(ch) ==
  /\ Len(hist) < MaxPath
  /\ hist' = Append(hist, Next0(ch))
  /\ e' = IF Enc = "byte" THEN ByteWrite(e, Next0(ch)) ELSE IntWrite(e, Next0(ch))
  /\ steps' = Append(steps, ch)
  /\ PrintT(<<"PATH", Enc, hist'>>)
Next == \E ch \in 1..3 : Step(ch)
(* the encoder is right along every path *)
Right == IF Enc = "byte"
         THEN Expand(ByteFlush(e).out) = hist /\ \A k \in 1..Len(ByteFlush(e).out) : GroupOk(ByteFlush(e).out[k])
         ELSE Expand(IntFlush(e).out) = [k \in 1..Len(hist) |-> hist[k] % W]
              /\ \A k \in 1..Len(IntFlush(e).out) : GroupOk(IntFlush(e).out[k])
=============================================================================
