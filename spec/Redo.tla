-------------------------------- MODULE Redo --------------------------------
(***************************************************************************)
(* The redo log of MySQL 5.7: the records, the stream they form, the       *)
(* 512-byte blocks and the files which carry the stream, and the undo      *)
(* records inside of it, from which update statements are recovered.       *)
(***************************************************************************)
EXTENDS Values

(***************************************************************************)
(* Record types.                                                           *)
(***************************************************************************)
MultiEnd == 31
Dummy    == 32
Checkpoint == 56
UndoInsert == 20
NByteTypes  == {1, 2, 4}
EmptyTypes  == {19, 21, 23, 27, 29, 37, 57, 58, 59}
FileTypes   == {33, 35, 55}          \* one name
RenameTypes == {34, 54}              \* two names
MinMarks    == {26, 36}
OffsetTypes == {14, 15, 16, 42, 43, 44}   \* a page offset, for the compact ones behind the index
\* All types of the format which the tool claims to support, without the undo records.
OtherTypes ==
  NByteTypes \cup {8} \cup EmptyTypes \cup FileTypes \cup RenameTypes \cup MinMarks \cup OffsetTypes
  \cup {9, 10, 11, 13, 17, 18, 22, 24, 25, 30, 38, 39, 40, 41, 45, 46, 47, 48, 49, 50, 51, 52, 53, 60, 61}
Bare == {MultiEnd, Dummy}
\* Types whose body starts with the description of an index.
IndexTypes == {38, 39, 40, 41, 42, 43, 44, 45, 46, 52, 53}

RecHead(code, single, space, page) == <<code + (IF single THEN 128 ELSE 0)>> \o CompW(space) \o CompW(page)

(***************************************************************************)
(* Parts of bodies.                                                        *)
(***************************************************************************)
\* The smallest and the largest word of every encoded width.
EdgeWords == << <<0,0,0,0>>, <<0,0,0,1>>, <<0,0,0,127>>, <<0,0,0,128>>, <<0,0,63,255>>, <<0,0,64,0>>, <<0,31,255,255>>, <<0,32,0,0>>,
                <<15,255,255,255>>, <<16,0,0,0>>, <<31,255,255,255>>, <<127,255,255,255>>, <<255,255,255,254>>, <<255,255,255,255>> >>
Edge(i) == EdgeWords[1 + ((i - 1) % Len(EdgeWords))]
\* 64 bit values, so that the high and the low word take every width.
Edge64(i) == Edge(1 + ((i - 1) \div Len(EdgeWords))) \o Edge(i)
NEdge == Len(EdgeWords)
\* Some number of exactly n bits, as a word of w bytes.
BitWord(w, n, salt) ==
  [j \in 1..w |-> LET lo == 8 * (w - j)
                  IN IF n >= lo + 8 THEN (IF n = lo + 8 THEN 128 + R(salt + j, 91, 128) ELSE R(salt + j, 91, 256))
                     ELSE IF n <= lo THEN 0 ELSE 2^(n - lo - 1) + R(salt + j, 91, 2^(n - lo - 1))]
\* The numbers of the edges, then numbers of all sizes.
AnyWord(i) == IF i <= 2 * NEdge THEN Edge(i) ELSE BitWord(4, i % 33, Seed + i)
AnyWord64(i) == IF i <= NEdge * NEdge THEN Edge64(i) ELSE BitWord(8, (i - NEdge * NEdge) % 65, Seed + i)

IndexInfo(lens, nuniq) == U2(Len(lens)) \o U2(nuniq) \o Cat([i \in 1..Len(lens) |-> U2(lens[i])])
\* The logged end of an inserted record; ext: with info bits and offsets.
InsertSeg(short, ext, off, w1, w2, data) ==
  (IF short THEN <<>> ELSE U2(off)) \o Comp(2 * Len(data) + (IF ext THEN 1 ELSE 0))
  \o (IF ext THEN <<16 * ((Len(data) \div 3) % 4) + (Len(data) % 4)>> \o CompW(w1) \o CompW(w2) ELSE <<>>) \o data
SysVals(pos, roll, trx) == CompW(pos) \o roll \o Comp64(trx)
NullLenBytes == <<240, 255, 255, 255, 255>>
\* An update vector: <<field number word, <<data>> or <<>> for NULL>>.
UpdField(f) == CompW(f[1]) \o (IF f[2] = <<>> THEN NullLenBytes ELSE Comp(Len(f[2][1])) \o f[2][1])

(***************************************************************************)
(* The reader's view: where the record at position i of the stream s ends. *)
(* Written independently of the encoders, to state that the stream can be  *)
(* read unambiguously.                                                     *)
(***************************************************************************)
AComp(s, i) == LET d == DecCompW(s, i) IN i + d[2]
AComp64(s, i) == AComp(s, i) + 4
CompVal(s, i) == LET w == DecCompW(s, i)[1] IN IF w[1] < 128 THEN D4(w, 1) ELSE -1
AIndex(s, i) == i + 4 + 2 * D2(s, i)
AInsert(s, i, short) ==
  LET a == IF short THEN i ELSE i + 2
      n == CompVal(s, a)
      b == AComp(s, a)
      c == IF n % 2 = 1 THEN AComp(s, AComp(s, b + 1)) ELSE b
  IN c + (n \div 2)
ASys(s, i) == AComp64(s, AComp(s, i) + 7)
RECURSIVE AFields(_, _, _)
AFields(s, i, n) ==
  IF n = 0 THEN i
  ELSE LET a == AComp(s, i)
           l == CompVal(s, a)
           b == AComp(s, a)
       IN AFields(s, IF l < 0 THEN b ELSE b + l, n - 1)
RECURSIVE AInserts(_, _, _)
AInserts(s, i, end) == IF i >= end THEN i ELSE AInserts(s, AInsert(s, i, TRUE), end)
RecEnd(s, i) ==
  LET code == s[i] % 128
      body == AComp(s, AComp(s, i + 1))
      j == IF code \in IndexTypes THEN AIndex(s, body) ELSE body
  IN CASE s[i] \in Bare -> i + 1
       [] code = Checkpoint -> i + 9
       [] code \in NByteTypes -> AComp(s, j + 2)
       [] code = 8 -> AComp64(s, j + 2)
       [] code \in {9, 38} -> AInsert(s, j, FALSE)
       [] code \in {10, 39} -> ASys(s, j + 2) + 2
       [] code \in {11, 40} -> j + 3
       [] code \in {13, 41} -> LET k == ASys(s, j + 1) + 3 IN AFields(s, AComp(s, k), CompVal(s, k))
       [] code \in OffsetTypes \cup MinMarks -> j + 2
       [] code \in {17, 45} -> j + 4 + D4(s, j)
       [] code \in {18, 46} -> j
       [] code \in {52, 53} -> j + 1
       [] code \in EmptyTypes -> j
       [] code = UndoInsert -> j + 2 + D2(s, j)
       [] code = 22 -> AComp(s, j)
       [] code \in {24, 25} -> AComp64(s, j)
       [] code = 30 -> j + 4 + D2(s, j + 2)
       [] code \in FileTypes -> j + 2 + D2(s, j)
       [] code = 47 -> j + 6 + D2(s, j + 4)
       [] code \in RenameTypes -> LET k == j + 2 + D2(s, j) IN k + 2 + D2(s, k)
       [] code = 48 -> j + 8
       [] code = 49 -> j + 24
       [] code = 50 -> j + 2 + s[j + 1]
       [] code = 51 -> j + 12 + D2(s, j) + D2(s, j + 2)
       [] code \in {60, 61} -> j + 8

(***************************************************************************)
(* Undo records.                                                           *)
(***************************************************************************)
UpdExist == 12
InsertRec == 11
UpdDel == 13
DelMark == 14
Opt0 == [typ |-> UpdExist, cmpl |-> 1, ext |-> FALSE, no |-> U8(3), info |-> 0, trx |-> Zeros(4) \o <<0, 0, 9, 17>>,
         roll |-> <<0, 171, 0, 0, 1, 44, 1, 16>>, rest |-> <<>>, fmt |-> "C", space |-> Zeros(4), page |-> U4(305), single |-> FALSE]

PosIn(pc, j) == (CHOOSE i \in 1..Len(pc) : pc[i] = j) - 1
PhysPos(t, j) == PosIn(PhysCols(t), j)

\* The payload of the record.  key: the stored key values; upd: sequence of
\* <<position, <<bytes>> or <<>>>>, or of <<_, _, the whole entry>>.
UndoHead(o, tid) ==
  <<o.typ + 16 * o.cmpl + (IF o.ext THEN 128 ELSE 0)>> \o MuchComp64(o.no) \o MuchComp64(tid)
  \o (IF o.typ = InsertRec THEN <<>> ELSE <<o.info>> \o Comp64(o.trx) \o Comp64(o.roll))
UndoKey(key) == Cat([i \in 1..Len(key) |-> Comp(Len(key[i])) \o key[i]])
UndoUpd(upd) == Comp(Len(upd)) \o Cat([i \in 1..Len(upd) |-> IF Len(upd[i]) = 3 THEN upd[i][3] ELSE
   Comp(upd[i][1]) \o (IF upd[i][2] = <<>> THEN NullLenBytes ELSE Comp(Len(upd[i][2][1])) \o upd[i][2][1])])
UndoPayload(o, tid, key, upd) ==
  UndoHead(o, tid) \o UndoKey(key) \o (IF o.typ \in {UpdExist, UpdDel} THEN UndoUpd(upd) ELSE <<>>) \o o.rest
UndoLog(o, payload) == RecHead(UndoInsert, o.single, o.space, o.page) \o U2(Len(payload)) \o payload

KeyBytes(t, row, fmt) == Eval([i \in 1..Len(t.key) |-> IF PfxOf(t, i) > 0 THEN PfxBytes(t, i, row[t.key[i]]) ELSE Enc(t.cols[t.key[i]], row[t.key[i]], fmt)])

(***************************************************************************)
(* An indexed virtual column: its number behind those of all fields, the   *)
(* indexes it is in, the old and the new value.  The first one of a record *)
(* has a version marker.                                                   *)
(***************************************************************************)
MaxFields == 1023
UndoValue(b) == IF b = <<>> THEN NullLenBytes ELSE Comp(Len(b[1])) \o b[1]
VirtEntry(v, first, idxs, old, new) ==
  LET list == Comp(Len(idxs)) \o Cat([i \in 1..Len(idxs) |-> Comp(idxs[i]) \o Comp(i - 1)])
  IN Comp(MaxFields + v) \o (IF first THEN <<241>> ELSE <<>>) \o U2(2 + Len(list)) \o list \o UndoValue(old) \o UndoValue(new)
\* set: sequence of <<column, value>>.
SetBytes(t, set0, fmt) ==
  LET set == Eval(set0)
      pc == PhysCols(t)
      firstv == IF HasVirt(t) THEN Min({Len(set) + 1} \cup {i \in 1..Len(set) : IsVirt(t, set[i][1])}) ELSE 0
  IN Eval([i \in 1..Len(set) |->
       IF HasVirt(t) /\ IsVirt(t, set[i][1])
       THEN LET c == VBase(t.cols[set[i][1]])
                old == IF IsNull(set[i][2]) THEN <<>> ELSE <<Enc(c, set[i][2], fmt)>>
            IN <<0, <<>>, VirtEntry(NVirt(t, set[i][1]) - 1, i = firstv, IF (i + Len(set)) % 4 = 1 THEN [x \in 1..60 |-> 2147483000 + x]    \* a list of more than 255 bytes
                                                                   ELSE [x \in 1..(1 + (i % 3)) |-> 200 + (i * 67 * x)], old,
                                    IF i % 3 = 0 THEN <<>> ELSE <<Rep(65 + (i % 26), 1 + (i * 31 % 200))>>)>>
       ELSE <<PosIn(pc, set[i][1]), IF IsNull(set[i][2]) THEN <<>> ELSE <<Enc(t.cols[set[i][1]], set[i][2], fmt)>>>>])

\* The old value of a column which is stored outside of its row: the record has
\* what is in the row, and its length is above all others; if the column is in
\* an index, a longer prefix with the length of what was in the row.
ExternStorage == <<255, 255, 191, 255>>
UndoExt(pos, b) == Comp(pos) \o CompW(<<255, 255>> \o U2(49151 + Len(b))) \o b
UndoExtLong(pos, b, n) == Comp(pos) \o CompW(ExternStorage) \o Comp(n) \o Comp(Len(b)) \o b

\* The statement which restores the old values of a row.
Shown(t, set0) == SelectSeq(Eval(set0), LAMBDA a : t.cols[a[1]].k \notin {"virtual", "ftsdoc"})
Update(t, row, set0) ==
  LET set == Eval(Shown(t, set0)) IN
  [t |-> "update", db |-> t.db, tab |-> t.name,
   set |-> [i \in 1..Len(set) |-> [c |-> t.cols[set[i][1]].n, v |-> Exp(t.cols[set[i][1]], set[i][2])]],
   where |-> [i \in 1..Len(t.key) |-> [c |-> t.cols[t.key[i]].n, v |-> Exp(t.cols[t.key[i]], row[t.key[i]])]]]

(***************************************************************************)
(* An item of the stream: the bytes of a record and the statements it      *)
(* yields.                                                                 *)
(***************************************************************************)
Item(b, e) == [b |-> b, e |-> e]
Plain(b) == Item(b, <<>>)
UpdItemO(t, row, set0, o) ==
  LET set == Eval(set0) IN
  Item(UndoLog(o, UndoPayload(o, t.id, KeyBytes(t, row, o.fmt), SetBytes(t, set, o.fmt))),
       IF o.typ = UpdExist /\ Shown(t, set) # <<>> THEN <<Update(t, row, set)>> ELSE <<>>)
UpdItem(t, row, set) == UpdItemO(t, row, set, Opt0)
StreamOf(items) == Cat([i \in 1..Len(items) |-> items[i].b])
ExpOf(items) == Cat([i \in 1..Len(items) |-> items[i].e])

\* The reader finds exactly the records.
RECURSIVE Ends(_, _)
Ends(s, i) == IF i > Len(s) THEN <<>> ELSE LET e == RecEnd(s, i) IN <<e>> \o Ends(s, e)
Parseable(items) ==
  Ends(StreamOf(items), 1) =
    FoldLeft(LAMBDA acc, it : Append(acc, (IF acc = <<>> THEN 1 ELSE acc[Len(acc)]) + Len(it.b)), <<>>,
             SelectSeq(items, LAMBDA it : it.b # <<>>))

(***************************************************************************)
(* Blocks and files.                                                       *)
(***************************************************************************)
BlockSize == 512
BlockData == 496
\* The stream in blocks: fills are the data sizes of the first blocks, the
\* others are filled completely.
RECURSIVE Fill(_, _, _)
Fill(s, i, fills) ==
  IF i > Len(s) /\ fills = <<>> THEN <<>>
  ELSE LET n == Min2(IF fills = <<>> THEN BlockData ELSE Head(fills), Len(s) - i + 1)
       IN <<SubSeq(s, i, i + n - 1)>> \o Fill(s, i + n, IF fills = <<>> THEN <<>> ELSE Tail(fills))
Blocks(s, fills) == Fill(s, 1, fills)
DataLen(b) == IF Len(b) = BlockData THEN BlockSize ELSE 12 + Len(b)

(***************************************************************************)
(* The header of a block tells where the first group of records begins in  *)
(* it.  Groups begin at records; here most records begin a group.  The     *)
(* recovery starts at a checkpoint and has to know this, a reader of all   *)
(* records has not.                                                        *)
(***************************************************************************)
\* The positions in the stream at which groups begin.
GroupStarts(items, salt) ==
  FoldLeft(LAMBDA acc, i : [p |-> acc.p + Len(items[i].b),
                            out |-> IF items[i].b # <<>> /\ (i = 1 \/ (salt + i) % 4 # 0) THEN Append(acc.out, acc.p) ELSE acc.out],
           [p |-> 1, out |-> <<>>], [i \in 1..Len(items) |-> i]).out
\* The offsets in the blocks' headers.  In a block which still has room and
\* in which no group begins, it is 0, or the place where the next one will.
RECURSIVE SkipTo(_, _, _)
SkipTo(starts, m, p) == IF m > Len(starts) \/ starts[m] >= p THEN m ELSE SkipTo(starts, m + 1, p)
FirstGroups(starts, blocks) ==
  FoldLeft(LAMBDA acc, b :
             LET k == Len(acc.out) + 1
                 m == SkipTo(starts, acc.m, acc.p)       \* the first group at or behind the block's begin
             IN [p |-> acc.p + Len(b), m |-> m,
                 out |-> Append(acc.out, IF m <= Len(starts) /\ starts[m] < acc.p + Len(b) THEN 12 + starts[m] - acc.p
                                         ELSE IF Len(b) < BlockData /\ k % 2 = 0 THEN DataLen(b) ELSE 0)],
           [p |-> 1, m |-> 1, out |-> <<>>], blocks).out

\* The number of a block counts up from 1 and wraps; the first block of a
\* write to the disk has a flag in it.
BlockNos == 1073741824
BlockNo(no, flush) == LET w == U4(((no - 1) % BlockNos) + 1) IN IF flush THEN [w EXCEPT ![1] = @ + 128] ELSE w
BlockBytes(b, first, no, salt) ==
  BlockNo(no, R(salt, no % 1000, 3) = 0) \o U2(DataLen(b)) \o U2(first) \o (IF salt % 3 = 1 THEN BitWord(4, 32 - (salt % 5), salt) ELSE U4((salt % 1000) + (no % 1000) \div 7 + 1)) \o b
  \o (IF Len(b) = BlockData THEN Noise(salt + (no % 1000), 61, 4) ELSE <<>>)

\* Where in the history of all logs a file begins.
StartLsn(salt) == IF salt % 3 = 0 THEN U8(8192) ELSE LET w == BitWord(8, 14 + (salt % 50), salt) IN [w EXCEPT ![7] = 2 * (@ \div 2), ![8] = 0]
\* A file: header, checkpoint, empty block, checkpoint, then the blocks; tail
\* zero blocks follow.  size: -1 or the number of bytes where it is cut.
LogFileOf(name, blocks, firsts, no, tail, salt) ==
  [n |-> name, u |-> BlockSize, nu |-> 4 + Len(blocks) + tail,
   c |-> << <<0, 0, U4(1) \o U4(0) \o StartLsn(salt) \o Str(<<"MySQL 5.7.19", "MySQL 5.7.44", "MySQL 5.7.9", "MEB 4.1.1">>[1 + (salt % 4)]) \o Zeros(20)>>, <<0, 508, Noise(salt, 63, 4)>>,
            <<1, 0, Noise(salt, 65, 48)>>, <<1, 508, Noise(salt, 67, 4)>>, <<3, 0, Noise(salt, 69, 48)>>, <<3, 508, Noise(salt, 71, 4)>> >>
         \o [i \in 1..Len(blocks) |-> <<3 + i, 0, BlockBytes(blocks[i], firsts[i], no + i, salt)>>]]
LogFile(name, items, salt) ==
  LET bs == Blocks(StreamOf(items), <<>>)
  IN LogFileOf(name, bs, FirstGroups(GroupStarts(items, salt), bs), 16 + (salt % 50), salt % 3, salt)

RedoRun(sys, files, db, tab, exp) ==
  [cmd |-> "redo", sys |-> sys, redo |-> files, out |-> "exact", exp |-> exp]
  @@ (IF db = <<>> THEN <<>> ELSE [db |-> db]) @@ (IF tab = <<>> THEN <<>> ELSE [tab |-> tab])
RedoAll(sys, file, exp) == [cmd |-> "redo", sys |-> sys, redo |-> <<file>>, out |-> "exact", exp |-> exp]

(***************************************************************************)
(* A table to log updates of, and a statement which nothing should print:  *)
(* "decoy" bytes are a complete undo record, hidden in the payload of      *)
(* other records, so that a reader which loses its way runs into them.     *)
(***************************************************************************)
TU == TabS(<<ID, Col(Str("a"), "varchar", 40, FALSE), Col(Str("n"), "int", 4, FALSE), Col(Str("b"), "varchar", 300, FALSE)>>, <<1>>)
URow(k) == <<Id(k), Null, Null, Null>>
\* The k-th marker: an update whose statement tells k.
Marker(k) == UpdItem(TU, URow(k), CASE k % 4 = 0 -> <<<<2, S(Str("mark") \o Dig(k, 4))>>>>
                                    [] k % 4 = 1 -> <<<<3, W(U4(k))>>>>
                                    [] k % 4 = 2 -> <<<<2, Null>>, <<3, W(U4(7))>>>>
                                    [] OTHER -> <<<<4, S(Rep(97 + (k % 26), 130 + (k % 5)))>>, <<3, Null>>>>)
\* The k-th of the shortest updates.
TM == Tab(3, 5, DB, Str("m"), <<Col(Str("k"), "int", 1, TRUE), Col(Str("v"), "varchar", 9, FALSE)>>, <<1>>)
Tiny(k) == UpdItemO(TM, <<W(<<128 + (k % 100)>>), Null>>, <<<<2, S(IF k % 2 = 0 THEN <<>> ELSE Dig(k % 10, 1))>>>>,
                    [Opt0 EXCEPT !.no = U8(k), !.trx = U8(300 + k), !.roll = U8(100 + k), !.page = U4(k % 128)])
Decoy == UpdItem(TU, URow(666), <<<<2, S(Str("decoy"))>>>>).b

(***************************************************************************)
(* The rows of RowsCase, and the same rows as old values of updates: their *)
(* key in the condition, all other columns assigned.                       *)
(***************************************************************************)
RestOf(t) == SelectSeq([j \in 1..Len(t.cols) |-> j], LAMBDA j : ~Contains(t.key, j))
RowUpdates(t, fmt, rows) ==
  LET rest == RestOf(t)
  IN Eval([i \in 1..Len(rows) |-> UpdItemO(t, rows[i], [x \in 1..Len(rest) |-> <<rest[x], rows[i][rest[x]]>>], [Opt0 EXCEPT !.fmt = fmt])])
RowsCase2(id, d, t, fmt, rows0, salt) ==
  LET rows == Eval([i \in 1..Len(rows0) |-> Eval(rows0[i])])
      c == RowsCase(id, d, t, fmt, rows, salt)
      items == RowUpdates(t, fmt, rows)
  IN [c EXCEPT !.files = Append(@, LogFile("log0", items, salt)),
               !.runs = Append(@, RedoAll("ibdata1", "log0", ExpOf(items)))]

=============================================================================
