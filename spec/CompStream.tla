----------------------------- MODULE CompStream -----------------------------
(***************************************************************************)
(* compression.rs: bytes are collected in a block buffer of capacity B;    *)
(* full blocks are compressed, or kept as they are if that is no gain.     *)
(* Content bytes are numbered, so that order and completeness show.        *)
(* Checked exhaustively over every sequence of writes of 1 byte and of n   *)
(* bytes; what a block compresses to is arbitrary.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

CONSTANTS B,          \* block size
          N,          \* content bytes per run
          MaxWrite,   \* longest single write
          Sizes,      \* how a block may compress: 0 shorter, 1 equal, 2 longer
          Grows       \* TRUE: a write longer than the space left is put into one block
                      \* (the behaviour before fix 2302d08; Bounded must then fail)
VARIABLES buf,        \* content of the open block
          blocks,     \* finished blocks [c, n, orig]
          total,      \* bytes written so far
          pos         \* pos[k + 1] = position recorded when k bytes had been written
vars == <<buf, blocks, total, pos>>

Head3 == 3
OutLen(bs) == FoldLeft(LAMBDA a, b : a + b.n, 0, bs)
Here == <<OutLen(blocks) + Head3 * Len(blocks), Len(buf)>>

(* the compressor returns Len(c) + d - 1 bytes *)
Compressed(c, d) == IF d > 1 THEN [c |-> c, n |-> Len(c), orig |-> TRUE]
                    ELSE [c |-> c, n |-> IF Len(c) + d < 2 THEN 1 ELSE Len(c) + d - 1, orig |-> FALSE]

(* all outcomes of writing the bytes s into (buf, blocks) *)
RECURSIVE Fill(_, _, _)
Fill(bu, bs, s) ==
  IF Len(bu) + Len(s) <= B THEN {<<bu \o s, bs>>}
  ELSE LET k == B - Len(bu)
           full == bu \o SubSeq(s, 1, k)
           rest == SubSeq(s, k + 1, Len(s))
       IN IF full = <<>> THEN {<<rest, bs>>}
          ELSE UNION {IF Grows THEN {<<rest, Append(bs, Compressed(full, d))>>}
                      ELSE Fill(<<>>, Append(bs, Compressed(full, d)), rest) : d \in Sizes}

Bytes(n) == [i \in 1..n |-> total + i]

Init == buf = <<>> /\ blocks = <<>> /\ total = 0 /\ pos = <<<<0, 0>>>>
Write(n) ==
  /\ total + n <= N
  /\ \E r \in Fill(buf, blocks, Bytes(n)) : buf' = r[1] /\ blocks' = r[2]
  /\ total' = total + n
  /\ pos' = pos \o [i \in 1..n |-> IF i < n THEN <<-1, -1>>
                                   ELSE <<OutLen(blocks') + Head3 * Len(blocks'), Len(buf')>>]
Next == \E n \in 1..MaxWrite : Write(n)

(* the stream as it is written in the end *)
Final == IF buf = <<>> THEN blocks ELSE Append(blocks, Compressed(buf, 0))
Content(bs) == FoldLeft(LAMBDA a, b : a \o b.c, <<>>, bs)
Start(bs, k) == OutLen(SubSeq(bs, 1, k - 1)) + Head3 * (k - 1)

Complete == Content(Final) = [i \in 1..total |-> i]
Bounded == \A k \in 1..Len(Final) : Len(Final[k].c) \in 1..B
NoWaste == \A k \in 1..Len(Final) : Final[k].n <= Len(Final[k].c) /\ (Final[k].orig => Final[k].n = Len(Final[k].c))
Seek(p) ==
  LET at == {k \in 1..Len(Final) : Start(Final, k) = p[1]} IN
  IF at # {} THEN LET k == CHOOSE k \in at : TRUE IN
       IF p[2] > Len(Final[k].c) THEN <<-1>>
       ELSE SubSeq(Final[k].c, p[2] + 1, Len(Final[k].c)) \o Content(SubSeq(Final, k + 1, Len(Final)))
  ELSE IF p[1] = OutLen(Final) + Head3 * Len(Final) /\ p[2] = 0 THEN <<>> ELSE <<-1>>
Positions == \A k \in 0..total :
   pos[k + 1][1] >= 0 => Seek(pos[k + 1]) = [i \in 1..(total - k) |-> k + i]
=============================================================================
