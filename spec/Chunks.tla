------------------------------- MODULE Chunks -------------------------------
(***************************************************************************)
(* The compression framing: a section is a sequence of chunks, each with a *)
(* three-byte header (length * 2 + original).  Snappy is decompressed      *)
(* here; for Zstandard, `dec` maps the file offset of a chunk header to    *)
(* its decompressed payload (computed by the recorder with libzstd).       *)
(***************************************************************************)
EXTENDS Codec

(* ---- Snappy ---- *)
RECURSIVE LE(_, _, _)
LE(bs, i, n) == IF n = 0 THEN 0 ELSE bs[i] + 256 * LE(bs, i + 1, n - 1)

CopyOut(out, off, n) ==             \* copies may overlap what they produce
  IF n <= off THEN out \o SubSeq(out, Len(out) - off + 1, Len(out) - off + n)
  ELSE LET l == Len(out) - off
           p == SubSeq(out, l + 1, Len(out))
       IN out \o TLCEval([i \in 1..n |-> p[((i - 1) % off) + 1]])

(* the element at place i: acc with the place of the next one *)
SnapAt(bs, acc, i) ==
  LET out == acc.d
      tag == bs[i] % 4
      hi  == bs[i] \div 4
      No  == [acc EXCEPT !.ok = FALSE]
  IN CASE tag = 0 ->
            LET ex == IF hi < 60 THEN 0 ELSE hi - 59      \* bytes of length
            IN IF i + ex > Len(bs) \/ ex > 3 THEN No
               ELSE LET n == 1 + (IF ex = 0 THEN hi ELSE LE(bs, i + 1, ex)) IN
                    IF i + ex + n > Len(bs) THEN No
                    ELSE [ok |-> TRUE, nx |-> i + ex + n + 1, d |-> out \o SubSeq(bs, i + ex + 1, i + ex + n)]
       [] OTHER ->
            LET ex  == CASE tag = 1 -> 1 [] tag = 2 -> 2 [] OTHER -> 4
                n   == IF tag = 1 THEN 4 + (hi % 8) ELSE hi + 1
                off == IF i + ex > Len(bs) THEN 0
                       ELSE CASE tag = 1 -> (hi \div 8) * 256 + bs[i + 1]
                              [] tag = 2 -> LE(bs, i + 1, 2)
                              [] OTHER -> IF bs[i + 4] > 0 THEN 0 ELSE LE(bs, i + 1, 3)
            IN IF off = 0 \/ off > Len(out) THEN No
               ELSE [ok |-> TRUE, nx |-> i + ex + 1, d |-> CopyOut(out, off, n)]

Unsnap(bs) ==
  LET e == VarEnd(bs, 1, 5)
      n == IF e = 0 THEN -1 ELSE ToNat(VarNum(bs, 1, e))
      r == FoldLeft(LAMBDA acc, i : IF i # acc.nx \/ ~acc.ok THEN acc ELSE SnapAt(bs, acc, i),
                    [ok |-> TRUE, nx |-> e + 1, d |-> <<>>], TLCEval([i \in 1..Len(bs) |-> i]))
  IN IF n < 0 THEN [ok |-> FALSE, d |-> <<>>]
     ELSE [ok |-> r.ok /\ r.nx = Len(bs) + 1 /\ Len(r.d) = n, d |-> r.d]

(* ---- chunks ---- *)
CNone == 0
CSnappy == 2
CZstd == 5

RECURSIVE DecFind(_, _, _, _)
DecFind(dec, off, lo, hi) ==        \* dec is sorted by offset
  IF lo > hi THEN [ok |-> FALSE, d |-> <<>>]
  ELSE LET mid == (lo + hi) \div 2 IN
       IF dec[mid][1] = off THEN [ok |-> TRUE, d |-> dec[mid][2]]
       ELSE IF dec[mid][1] < off THEN DecFind(dec, off, mid + 1, hi)
       ELSE DecFind(dec, off, lo, mid - 1)

(* the section of `len` bytes at offset `lo` (from 0) of file F; chunk record:
   s = offset of its header in the section, n = payload length, u = offset of
   its content in the decompressed section, ul = content length.  The bytes are
   passed one by one; `nx` is the offset of the next header. *)
ChunkAt(F, lo, len, comp, dec, acc, at) ==
  LET h    == F[lo + at + 1] + 256 * F[lo + at + 2] + 65536 * F[lo + at + 3]
      n    == h \div 2
      orig == h % 2 = 1
      pay  == SubSeq(F, lo + at + 4, lo + at + 3 + n)
      c    == TLCEval(IF at + 3 + n > len \/ n = 0 THEN [ok |-> FALSE, d |-> <<>>]
                      ELSE IF orig THEN [ok |-> TRUE, d |-> pay]
                      ELSE IF comp = CSnappy THEN Unsnap(pay)
                      ELSE IF comp = CZstd THEN DecFind(dec, lo + at, 1, Len(dec))
                      ELSE [ok |-> FALSE, d |-> <<>>])
  IN IF ~c.ok THEN [acc EXCEPT !.ok = FALSE]
     ELSE [ok |-> TRUE, nx |-> at + 3 + n, data |-> acc.data \o c.d,
           chunks |-> Append(acc.chunks,
              [s |-> at, n |-> n, orig |-> orig, u |-> Len(acc.data), ul |-> Len(c.d)])]
ChunkScan(F, lo, len, comp, dec) ==
  LET step(acc, i) == IF i # acc.nx \/ ~acc.ok THEN acc
                      ELSE IF i + 3 > len THEN [acc EXCEPT !.ok = FALSE]
                      ELSE ChunkAt(F, lo, len, comp, dec, acc, i)
      r == FoldLeft(step, [ok |-> TRUE, nx |-> 0, data |-> <<>>, chunks |-> <<>>],
                    TLCEval([i \in 1..len |-> i - 1]))
  IN [ok |-> r.ok /\ r.nx = len, data |-> r.data, chunks |-> r.chunks]

NoSection == [ok |-> FALSE, data |-> <<>>, chunks |-> <<>>]
Section(F, lo, len, comp, dec) ==
  IF lo < 0 \/ len < 0 \/ lo > Len(F) \/ len > Len(F) - lo THEN NoSection
  ELSE IF comp = CNone THEN [ok |-> TRUE, data |-> SubSeq(F, lo + 1, lo + len), chunks |-> <<>>]
  ELSE ChunkScan(F, lo, len, comp, dec)

(* the framing rules of one chunk *)
ChunkOk(c, block) ==
  /\ c.ul > 0 /\ c.ul <= block
  /\ c.n <= c.ul
  /\ c.orig => c.n = c.ul
=============================================================================
