-------------------------------- MODULE C17 --------------------------------
(***************************************************************************)
(* C17: a torn log gives a clean prefix.  The writer's state is a stream   *)
(* of records in blocks and files; the crash leaves the stream up to an    *)
(* arbitrary byte: the last block says how far it is filled, or the last   *)
(* file ends in the middle of it.  Every byte of several streams.          *)
(***************************************************************************)
EXTENDS Redo

\* Several streams of records, each of which goes over a few blocks.
Other(x, k) ==
  CASE R(x, k, 9) = 0 -> Plain(<<MultiEnd>>)
    [] R(x, k, 9) = 1 -> Plain(RecHead(4, TRUE, Edge(k), Edge(k + 5)) \o U2(100) \o CompW(Edge(k + 3)))
    [] R(x, k, 9) = 2 -> Plain(RecHead(30, FALSE, U4(0), U4(k)) \o U2(200) \o U2(Len(Decoy) + k) \o Decoy \o Rep(20, k))
    [] R(x, k, 9) = 3 -> Plain(RecHead(8, FALSE, U4(0), U4(5)) \o U2(38) \o Comp64(Edge64(k * 17)))
    [] R(x, k, 9) = 4 -> Plain(RecHead(38, FALSE, U4(23), U4(4)) \o IndexInfo(<<4, 6, 7>>, 1) \o InsertSeg(FALSE, TRUE, 99, U4(5), U4(1), Decoy))
    [] R(x, k, 9) = 5 -> Plain(RecHead(41, FALSE, U4(23), U4(4)) \o IndexInfo(<<4, 6, 7, 40>>, 1) \o <<0>> \o SysVals(U4(1), Rep(9, 7), U8(77)) \o U2(120) \o <<0>>
                               \o Comp(2) \o UpdField(<<U4(3), <<Decoy>>>>) \o UpdField(<<U4(4), <<>>>>))
    [] R(x, k, 9) = 6 -> Plain(RecHead(45, FALSE, U4(23), U4(4)) \o IndexInfo(<<4, 6, 7>>, 1) \o LET b == InsertSeg(TRUE, TRUE, 0, U4(5), U4(1), Decoy) IN U4(2 * Len(b)) \o b \o b)
    [] R(x, k, 9) = 7 -> Plain(RecHead(54, FALSE, U4(23), U4(0)) \o U2(Len(Decoy)) \o Decoy \o U2(Len(Decoy)) \o Decoy)
    [] OTHER -> Plain(RecHead(51, FALSE, U4(23), U4(4)) \o U2(Len(Decoy)) \o U2(5) \o Zeros(8) \o Decoy \o Rep(20, 5))
\* Tables of other types, so that a torn value of each type would show.
TT == Tab(43, 26, DB, Str("w"), <<ID, Col(Str("big"), "int", 8, FALSE), Col(Str("dt"), "datetime", 0, FALSE), Col(Str("d"), "double", 8, FALSE),
                                  Col(Str("ts"), "timestamp", 3, FALSE), Col(Str("tm"), "time", 0, FALSE), Col(Str("c"), "char", 10, FALSE),
                                  Col(Str("y"), "year", 1, FALSE), Col(Str("da"), "date", 0, FALSE), Col(Str("bl"), "blob", 2, FALSE)>>, <<1>>)
Wide(k) ==
  UpdItemO(TT, [j \in 1..10 |-> IF j = 1 THEN Id(k) ELSE Null],
    CASE k % 4 = 0 -> <<<<2, W(U4(9) \o U4(k))>>, <<3, T(<<2019, 1, 2, 3, 4, 5, 0>>)>>>>
      [] k % 4 = 1 -> <<<<4, F(<<1, 2, 3, 4, 5, 6, 7, 64>>)>>, <<5, T(<<2019, 12, 31, 23, 59, 58, 123, 0>>)>>, <<6, Null>>>>
      [] k % 4 = 2 -> <<<<7, S(Str("characters"))>>, <<8, T(<<2019>>)>>, <<9, T(<<2019, 12, 31>>)>>>>
      [] OTHER -> <<<<6, T(<<TRUE, 1, 2, 3, 0>>)>>, <<10, S(Rep(98, 140))>>>>,
    [Opt0 EXCEPT !.rest = IF k % 2 = 0 THEN U2(8) \o Rep(20, 6) ELSE <<>>, !.cmpl = IF k % 2 = 0 THEN 0 ELSE 1])
Items(x, n) == Cat([k \in 1..n |-> (IF R(x, 100 + k, 2) = 0 THEN <<>> ELSE <<Other(x, k)>>) \o <<CASE R(x, 200 + k, 3) = 0 -> Wide(k) [] R(x, 200 + k, 3) = 1 -> Tiny(k) [] OTHER -> Marker(k)>>])
NStreams == IF Deep = 1 THEN 16 ELSE 4
Streams == [x \in 1..NStreams |-> Items(Seed * 13 + x, 9)]
StreamBytes == [x \in 1..NStreams |-> StreamOf(Streams[x])]

\* The items which are complete in the first n bytes.
Complete(items, n) ==
  FoldLeft(LAMBDA acc, it : IF acc.len + Len(it.b) <= n THEN [len |-> acc.len + Len(it.b), out |-> acc.out \o it.e] ELSE [acc EXCEPT !.len = @ + Len(it.b)],
           [len |-> 0, out |-> <<>>], items).out

(***************************************************************************)
(* How much of the stream is in the first f bytes of a file of these       *)
(* blocks (a file of -1 blocks: the file's four header blocks are cut).    *)
(***************************************************************************)
SumLen(bs, q) == FoldLeft(LAMBDA a, b : a + Len(b), 0, SubSeq(bs, 1, q))
InFile(bs, f) ==
  IF f < 2048 THEN 0
  ELSE LET q == (f - 2048) \div 512
           r == (f - 2048) % 512
       IN IF q >= Len(bs) THEN SumLen(bs, Len(bs))
          ELSE SumLen(bs, q) + Min2(Max2(r - 12, 0), Len(bs[q + 1]))

VARIABLE st
Init == st \in [ph : {"stream"}, x : 1..NStreams, g : 0..7]
Fills(x) == IF x % 2 = 0 THEN <<>> ELSE <<100 + x * 7, 496, 0, 30>>
FileBlocks == [x \in 1..NStreams |-> Blocks(StreamBytes[x], Fills(x))]
FileFirsts == [x \in 1..NStreams |-> FirstGroups(GroupStarts(Streams[x], x), FileBlocks[x])]
FileSize(x) == 2048 + 512 * Len(FileBlocks[x])
\* kind 1: the last block tells how far it is filled, n bytes of the stream are left
\* kind 2: the file is cut after n bytes
\* kind 3: the second of two files is cut after n bytes
Second(x) == 1 + (x % Max2(1, Len(FileBlocks[x]) - 1))    \* blocks of the first file
Next == /\ st.ph = "stream"
        /\ \/ \E n \in {i \in 0..Len(StreamBytes[st.x]) : i % 8 = st.g} : st' = [ph |-> "case", x |-> st.x, n |-> n, kind |-> 1]
           \/ \E n \in {i \in 2048..FileSize(st.x) : i % 8 = st.g} : st' = [ph |-> "case", x |-> st.x, n |-> n, kind |-> 2]
           \/ \E n \in {i \in 0..(FileSize(st.x) - 512 * Second(st.x)) : i % 8 = st.g /\ (i < 2048 => (i % 512 \in {0, 1, 100, 511} \/ i < 16)) /\ (i >= 2048 => i % 3 = 0)} :
                st' = [ph |-> "case", x |-> st.x, n |-> n, kind |-> 3]

Left(s) ==   \* bytes of the stream which are left
  LET bs == FileBlocks[s.x]
      m == Second(s.x)
  IN CASE s.kind = 1 -> s.n
       [] s.kind = 2 -> InFile(bs, s.n)
       [] s.kind = 3 -> SumLen(bs, m) + InFile(SubSeq(bs, m + 1, Len(bs)), s.n)
Cut(f, size) == [size |-> size] @@ f
Files(s) ==
  LET b == StreamBytes[s.x]
      bs == FileBlocks[s.x]
      fs == FileFirsts[s.x]
      m == Second(s.x)
      left == Blocks(SubSeq(b, 1, s.n), SubSeq(Fills(s.x), 1, Min2(Len(Fills(s.x)), IF s.n > 400 THEN 4 ELSE IF s.n > 100 THEN 1 ELSE 0)))
  IN CASE s.kind = 1 -> <<LogFileOf("log0", left, FirstGroups(SelectSeq(GroupStarts(Streams[s.x], s.x), LAMBDA p : p <= s.n), left), 30, s.n % 3, Seed + s.n)>>
       [] s.kind = 2 -> <<Cut(LogFileOf("log0", bs, fs, 30, 0, Seed + s.x), s.n)>>
       [] s.kind = 3 -> <<LogFileOf("log0", SubSeq(bs, 1, m), SubSeq(fs, 1, m), 30, 0, Seed + s.x), Cut(LogFileOf("log1", SubSeq(bs, m + 1, Len(bs)), SubSeq(fs, m + 1, Len(fs)), 30 + m, 0, Seed + s.x), s.n)>>
Case(s) ==
  LET fs == Files(s)
  IN [id |-> "C17-" \o ToString(s.kind) \o "-" \o ToString(s.x) \o "-" \o ToString(s.n), d |-> "torn log",
      files |-> <<DictFileOf(<<TU, TT, TM>>, Seed)>> \o fs,
      runs |-> <<[cmd |-> "redo", sys |-> "ibdata1", redo |-> [i \in 1..Len(fs) |-> fs[i].n],
                  out |-> IF s.kind = 3 /\ s.n < 2048 THEN "partial" ELSE "exact", exp |-> Complete(Streams[s.x], Left(s))]>>]
Emit == st.ph = "case" => EmitCase(Case(st))
\* What is left is a prefix, and its statements are a prefix of all statements.
Prefix == st.ph = "case" =>
  LET all == ExpOf(Streams[st.x])
      got == Complete(Streams[st.x], Left(st))
  IN /\ Left(st) \in 0..Len(StreamBytes[st.x])
     /\ got = SubSeq(all, 1, Len(got))
Unambiguous == st.ph = "stream" => Parseable(Streams[st.x])
=============================================================================
