-------------------------------- MODULE Page --------------------------------
(***************************************************************************)
(* Records and pages of InnoDB's B-trees, in both row formats.             *)
(*                                                                         *)
(* A physical row is a sequence of fields <<column, value>> in the order   *)
(* in which the fields are stored.  Formats are "C" (COMPACT, DYNAMIC) and *)
(* "R" (REDUNDANT).                                                        *)
(***************************************************************************)
EXTENDS Types

PageSize == 16384

SysCol(n, w) == [n |-> n, k |-> "sys", w |-> w, mb |-> 1, u |-> FALSE, nn |-> TRUE]

(***************************************************************************)
(* The bytes of a record: "extra" is what precedes its origin, without the *)
(* header that depends on its place in the page; "data" follows it.        *)
(***************************************************************************)
FieldData(f, fmt) ==
  IF IsNull(f[2]) THEN (IF fmt = "C" \/ f[1].k = "sys" THEN <<>> ELSE Zeros(NullLen(f[1])))
  ELSE Enc(f[1], f[2], fmt)

RecData(fs, fmt) == Cat([i \in 1..Len(fs) |-> FieldData(fs[i], fmt)])

\* COMPACT: one bit per nullable column, from the header downwards.
NullBytes(fs) ==
  LET nf == SelectSeq(fs, LAMBDA f : ~f[1].nn)
      nb == (Len(nf) + 7) \div 8
      bit(i) == IF i <= Len(nf) /\ IsNull(nf[i][2]) THEN 1 ELSE 0
      byte(j) == LET b == 8 * (j - 1)
                 IN bit(b+1) + 2 * bit(b+2) + 4 * bit(b+3) + 8 * bit(b+4) + 16 * bit(b+5)
                    + 32 * bit(b+6) + 64 * bit(b+7) + 128 * bit(b+8)
  IN [j \in 1..nb |-> byte(j)]

\* COMPACT: the lengths of the variable-length columns, from the null bits downwards.
LenBytes(fs) ==
  LET lb(f) == IF f[1].k = "sys" \/ IsNull(f[2]) \/ ~IsVar(f[1], "C") THEN <<>>
               ELSE LET n == Len(FieldData(f, "C"))
                        ext == f[2][1] = "x"
                    IN IF IsLongVar(f[1]) /\ (n > 127 \/ ext) THEN <<128 + (IF ext THEN 64 ELSE 0) + (n \div 256), n % 256>> ELSE <<n>>
  IN Cat([i \in 1..Len(fs) |-> lb(fs[i])])

\* REDUNDANT: the end offset of every field, from the header downwards.
EndOffsets(fs) ==
  LET lens == [i \in 1..Len(fs) |-> Len(FieldData(fs[i], "R"))]
  IN FoldLeft(LAMBDA acc, n : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + n), <<>>, lens)
IsShortOffs(ends) == ends[Len(ends)] <= 127
HasExt(fs) == \E i \in 1..Len(fs) : fs[i][2][1] = "x"

RecExtra(fs, fmt) ==
  IF fmt = "C" THEN Reverse(NullBytes(fs) \o LenBytes(fs))
  ELSE LET ends == EndOffsets(fs)
           short == IsShortOffs(ends) /\ ~HasExt(fs)
           ob(i) == LET nul == IsNull(fs[i][2])
                    IN IF short THEN <<ends[i] + (IF nul THEN 128 ELSE 0)>>
                       ELSE LET e == ends[i] + (IF nul THEN 32768 ELSE 0) + (IF fs[i][2][1] = "x" THEN 16384 ELSE 0) IN <<e \div 256, e % 256>>
       IN Cat([j \in 1..Len(fs) |-> ob(Len(fs) + 1 - j)])

HdrLen(fmt) == IF fmt = "C" THEN 5 ELSE 6

\* A record, encoded except for its header.  del: delete-marked.
Rec(fs, fmt, del) ==
  [x |-> RecExtra(fs, fmt), d |-> RecData(fs, fmt), del |-> del, nf |-> Len(fs),
   short |-> fmt = "R" /\ IsShortOffs(EndOffsets(fs)) /\ ~HasExt(fs), st |-> 0]

RecSize(r, fmt) == Len(r.x) + HdrLen(fmt) + Len(r.d)

\* The header of a record.
RecHdr(r, fmt, owned, heapNo, next) ==
  LET info == (IF r.del THEN 32 ELSE 0) + (IF r.st = 1 /\ heapNo = 2 THEN 16 ELSE 0) + owned
  IN IF fmt = "C" THEN <<info>> \o U2(heapNo * 8 + r.st) \o U2(next)
     ELSE <<info>> \o U3(heapNo * 2048 + r.nf * 2 + (IF r.short THEN 1 ELSE 0)) \o U2(next)

(***************************************************************************)
(* Pages.                                                                  *)
(***************************************************************************)
HeapStart(fmt) == IF fmt = "C" THEN 120 ELSE 125
Supremum(fmt)  == IF fmt = "C" THEN 112 ELSE 116
Infimum(fmt)   == IF fmt = "C" THEN 99 ELSE 101

\* The FIL header of every page: checksum, number, prev, next, lsn, type, flush lsn, space.
\* Checksum and log position of a page are anything, also zero or the largest.
Any4(salt, i) == LET x == R(salt, i, 6) IN CASE x = 0 -> Zeros(4) [] x = 1 -> <<255, 255, 255, 255>> [] OTHER -> Noise(salt, i, 4)
FilHdr(no, prev, next, typ, space, salt) ==
  Any4(salt, 1) \o U4(no) \o prev \o next \o (IF R(salt, 9, 3) = 0 THEN Noise(salt, 9, 4) ELSE Zeros(4)) \o Any4(salt, 5) \o U2(typ)
  \o Zeros(8) \o space

NoPage == <<255, 255, 255, 255>>

(***************************************************************************)
(* A page is described by                                                  *)
(*   no, space (word), fmt, level, index (8 byte word), maxtrx (8 bytes)   *)
(*   slots  the allocated heap space in order: [rec, cap] where cap is the *)
(*          allocated size (at least the record's size)                    *)
(*   live   the record list, as indexes of slots                           *)
(*   free   the free list, as indexes of slots                             *)
(*   lost   (optional) garbage bytes which are not on the free list        *)
(*   nb     (optional) the page numbers of the neighbours in key order     *)
(*   salt   seed of the bytes that must not matter                         *)
(***************************************************************************)
SlotStarts(p) ==   \* the first byte of every slot, and of the space behind
  FoldLeft(LAMBDA acc, s : Append(acc, acc[Len(acc)] + s.cap), <<HeapStart(p.fmt)>>, p.slots)

MkSlot(r, fmt) == [rec |-> r, cap |-> RecSize(r, fmt)]

\* Which records own a group of the directory: every fifth one on the list.
IsOwner(i, n) == i % 5 = 0 /\ i < n

PageChunks(p0) ==
  LET p      == [p0 EXCEPT !.slots = Eval(@), !.live = Eval(@), !.free = Eval(@)]
      fmt    == p.fmt
      lost   == IF "lost" \in DOMAIN p THEN p.lost ELSE 0
      ns     == Len(p.slots)
      starts == SlotStarts(p)
      origin == Eval([i \in 1..ns |-> starts[i] + Len(p.slots[i].rec.x) + HdrLen(fmt)])
      nl     == Len(p.live)
      inv(list) == FoldLeft(LAMBDA acc, j : [acc EXCEPT ![list[j]] = j], [i \in 1..ns |-> 0],
                            [j \in 1..Len(list) |-> j])
      livePos == inv(p.live)
      freePos == inv(p.free)
      \* The successor of every record: its origin, 0 for the last free one.
      succ(i) == LET l == livePos[i]
                     f == freePos[i]
                 IN IF l > 0 THEN (IF l = nl THEN Supremum(fmt) ELSE origin[p.live[l+1]])
                    ELSE IF f > 0 THEN (IF f = Len(p.free) THEN 0 ELSE origin[p.free[f+1]])
                    ELSE 0
      rel(from, to) == IF to = 0 THEN 0 ELSE IF fmt = "C" THEN (to - from + 65536) % 65536 ELSE to
      owned(i) == LET l == livePos[i] IN IF l > 0 /\ IsOwner(l, nl) THEN 5 ELSE 0
      supOwned == nl - 5 * Cardinality({l \in 1..nl : IsOwner(l, nl)}) + 1
      first  == IF nl = 0 THEN Supremum(fmt) ELSE origin[p.live[1]]
      slotBytes(i) ==
        LET s == p.slots[i]
            b == s.rec.x \o RecHdr(s.rec, fmt, owned(i), i + 1, rel(origin[i], succ(i))) \o s.rec.d
        IN b \o Noise(p.salt + i, 3, s.cap - Len(b))
      heap == Cat([i \in 1..ns |-> slotBytes(i)])
      garbage == FoldLeft(LAMBDA a, i : a + RecSize(p.slots[i].rec, fmt), lost, p.free)
      owners == SelectSeq(p.live, LAMBDA i : IsOwner(livePos[i], nl))
      dir == U2(Supremum(fmt)) \o Cat([j \in 1..Len(owners) |-> U2(origin[owners[Len(owners) + 1 - j]])])
             \o U2(Infimum(fmt))
      hdr == U2(Len(owners) + 2) \o U2(starts[ns + 1])
             \o U2((IF fmt = "C" THEN 32768 ELSE 0) + ns + 2)
             \o U2(IF p.free = <<>> THEN 0 ELSE origin[p.free[1]]) \o U2(garbage)
             \o U2(IF nl = 0 \/ p.salt % 3 = 0 THEN 0 ELSE origin[p.live[1 + ((p.salt \div 3) % nl)]]) \o U2(1 + (p.salt % 5)) \o U2(nl % 7)
             \o U2(nl) \o p.maxtrx \o U2(p.level) \o p.index
      nb == IF "nb" \in DOMAIN p THEN p.nb ELSE <<NoPage, NoPage>>
      \* the root page has the references of the segments
      fseg == IF nb = <<NoPage, NoPage>> THEN Zeros(4) \o U4(2) \o U2(242) \o Zeros(4) \o U4(2) \o U2(50) ELSE Zeros(20)
      sys == IF fmt = "C"
             THEN <<1, 0, 2>> \o U2((first - Infimum(fmt) + 65536) % 65536) \o Str("infimum") \o <<0>>
                  \o <<supOwned>> \o <<0, 11, 0, 0>> \o Str("supremum")
             ELSE <<8, 1>> \o <<0, 0, 3>> \o U2(first) \o Str("infimum") \o <<0>>
                  \o <<9, supOwned>> \o <<0, 8, 3, 0, 0>> \o Str("supremum") \o <<0>>
  IN << <<0, FilHdr(p.no, nb[1], nb[2], 17855, p.space, p.salt) \o hdr \o fseg \o sys \o heap>>,
        <<PageSize - 8 - Len(dir), dir \o Noise(p.salt, 9, 8)>> >>

\* A page of another type: header and arbitrary contents.
OtherPage(no, space, typ, body, salt) ==
  << <<0, FilHdr(no, NoPage, NoPage, typ, space, salt) \o body>> >>

\* The pages of a file: a sequence of chunk sequences becomes the chunks of the file.
FileChunks(pages) ==
  Cat([i \in 1..Len(pages) |->
        [j \in 1..Len(pages[i]) |-> <<i - 1, pages[i][j][1], pages[i][j][2]>>]])

(***************************************************************************)
(* The reader's view of a record: its field boundaries computed from the   *)
(* bytes before the origin, as a reader has to.  Used to state that the    *)
(* encoding is unambiguous.                                                *)
(***************************************************************************)
\* b: bytes before the origin without the header, nearest first.
DecodeNew(cols, b, data) ==
  LET nn == Len(SelectSeq(cols, LAMBDA c : ~c.nn))
      step(acc, c) ==   \* acc: [ni, li, off, out]
        LET isnull == ~c.nn /\ ((b[1 + (acc.ni \div 8)] \div (2^(acc.ni % 8))) % 2 = 1)
            ni2 == IF c.nn THEN acc.ni ELSE acc.ni + 1
            l1 == b[acc.li]
            two == IsLongVar(c) /\ l1 >= 128
            len == IF c.k = "sys" \/ ~IsVar(c, "C") THEN (IF c.k = "sys" THEN c.w ELSE ColLen(c))
                   ELSE IF two THEN (l1 % 64) * 256 + b[acc.li + 1] ELSE l1
            used == IF c.k = "sys" \/ ~IsVar(c, "C") THEN 0 ELSE IF two THEN 2 ELSE 1
        IN IF isnull THEN [acc EXCEPT !.ni = ni2, !.out = Append(@, <<>>)]
           ELSE [ni |-> ni2, li |-> acc.li + used, off |-> acc.off + len,
                 out |-> Append(acc.out, <<SubSeq(data, acc.off + 1, acc.off + len)>>)]
  IN FoldLeft(step, [ni |-> 0, li |-> 1 + ((nn + 7) \div 8), off |-> 0, out |-> <<>>], cols).out

DecodeOld(n, short, b, data) ==
  LET raw(i) == IF short THEN b[i] ELSE b[2*i] * 256 + b[2*i-1]
      nul(i) == IF short THEN raw(i) >= 128 ELSE raw(i) >= 32768
      end(i) == IF i = 0 THEN 0 ELSE IF short THEN raw(i) % 128 ELSE raw(i) % 16384
  IN [i \in 1..n |-> IF nul(i) THEN <<>> ELSE <<SubSeq(data, end(i-1) + 1, end(i))>>]

\* What the fields of a row should decode to.
Fields(fs, fmt) == [i \in 1..Len(fs) |-> IF IsNull(fs[i][2]) THEN <<>> ELSE <<FieldData(fs[i], fmt)>>]

Readable(fs, fmt) ==
  LET r == Rec(fs, fmt, FALSE)
      b == Reverse(r.x)
      cols == [i \in 1..Len(fs) |-> fs[i][1]]
  IN IF fmt = "C" THEN DecodeNew(cols, b, r.d) = Fields(fs, fmt)
     ELSE DecodeOld(Len(fs), r.short, b, r.d) = Fields(fs, fmt)

=============================================================================
