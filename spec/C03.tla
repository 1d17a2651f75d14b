-------------------------------- MODULE C03 --------------------------------
(***************************************************************************)
(* C03: which pages hold rows.  A state is a sequence of kinds of pages of *)
(* one table file: leaf pages of the clustered index, internal pages,      *)
(* pages of secondary indexes, pages of every other type with arbitrary    *)
(* contents (or with those of a leaf page), pages of zeros.  Every page    *)
(* which could be taken for one with rows has live and deleted records;    *)
(* the rows of the file, and its deleted rows, are those of the leaves.    *)
(***************************************************************************)
EXTENDS Gen

Cols == <<UCol(Str("id"), "int", 4, TRUE), Col(Str("name"), "varchar", 60, FALSE), Col(Str("v"), "int", 4, TRUE)>>
\* Without a key the hidden row id stands first.
Shapes == << TabS(Cols, <<1>>), TabS(Cols, <<>>), TabS(Cols, <<3, 1>>),
             [TabS(Cols, <<1>>) EXCEPT !.sec = <<[id |-> U8(300), name |-> Str("ix_name"), key |-> <<2>>, uniq |-> FALSE],
                                                 [id |-> U8(301), name |-> Str("ix_v"), key |-> <<3>>, uniq |-> TRUE]>>] >>

OtherTypes == <<0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17854, 17853, 13, 14, 15, 16>>
\* Maximum transaction ids, every byte of them.
MaxTrx == << Zeros(7) \o <<1>>, Zeros(2) \o <<1>> \o Zeros(5), Zeros(3) \o <<1>> \o Zeros(4), Zeros(4) \o <<128>> \o Zeros(3),
             Zeros(6) \o <<1, 0>>, Zeros(5) \o <<7, 0, 0>>, Zeros(2) \o Rep(255, 6), Zeros(4) \o <<0, 0, 9, 44>> >>
          \* every single bit of the ids there can be
          \o [b \in 1..48 |-> [k \in 1..8 |-> IF k = 8 - ((b - 1) \div 8) THEN 2^((b - 1) % 8) ELSE 0]]
Kinds3 == {<<"leaf", 0>>, <<"empty", 0>>, <<"gone", 0>>, <<"zero", 0>>}
          \cup {<<"node", l>> : l \in {1, 2, 3, 64}} \cup {<<"nodelike", l>> : l \in {1, 2, 32768, 256, 65535}}
          \cup {<<"sec", i>> : i \in 1..8} \cup {<<"seclike", i>> : i \in 1..8} \cup {<<"secnode", 1>>}
          \cup {<<"other", i>> : i \in 1..Len(OtherTypes)} \cup {<<"otherlike", i>> : i \in 1..Len(OtherTypes)}
HasRows(k) == k[1] \in {"leaf", "gone"}

\* Rows of the page at position j: j * 100 + i.
RowOf(j, i, what) == <<Id(j * 100 + i), IF (i + j) % 4 = 0 THEN Null ELSE S(Str(what) \o Dig(j * 100 + i, 4)), W(U4(j * 1000 + i))>>
\* Heap order live, deleted, live, deleted, live.
Live5 == <<1, 3, 5>>
Free5 == <<4, 2>>
RowLeaf(t, j, fmt, salt) ==
  LeafPage(t, j, fmt, [i \in 1..5 |-> MkSlot(TabRec(t, RowOf(j, i, IF i % 2 = 0 THEN "dead" ELSE "row"), fmt, i % 2 = 0, salt + i), fmt)], Live5, Free5, salt)
\* Rows which must not come out.
FakeLeaf(t, j, fmt, salt) ==
  LeafPage(t, j, fmt, [i \in 1..5 |-> MkSlot(TabRec(t, RowOf(j, i, "fake"), fmt, i % 2 = 0, salt + i), fmt)], Live5, Free5, salt)
\* Other records: their fields.
RecPage(t, j, fmt, fields(_), status, salt) ==
  LeafPage(t, j, fmt, [i \in 1..5 |-> MkSlot([Rec(fields(i), fmt, i % 2 = 0) EXCEPT !.st = status], fmt)], Live5, Free5, salt)
DW(b) == <<SysCol(<<>>, Len(b)), W(b)>>
KeyFields(t, j, i, fmt) == IF t.key = <<>> THEN <<DW(Zeros(4) \o U2(j * 100 + i))>> ELSE [x \in 1..Len(t.key) |-> <<t.cols[t.key[x]], RowOf(j, i, "node")[t.key[x]]>>]
NodeFields(t, j, i, fmt) == KeyFields(t, j, i, fmt) \o <<DW(U4(3 + i))>>
SecFields(t, j, i, fmt) == <<<<t.cols[2], RowOf(j, i, "sec")[2]>>>> \o KeyFields(t, j, i, fmt)

PageOf(t, k, j, fmt, salt) ==
  CASE k[1] = "leaf" -> PageChunks(RowLeaf(t, j, fmt, salt))
    [] k[1] = "empty" -> PageChunks(LeafPage(t, j, fmt, <<>>, <<>>, <<>>, salt))
    [] k[1] = "gone" -> PageChunks([RowLeaf(t, j, fmt, salt) EXCEPT !.live = <<>>, !.free = <<5, 4, 3, 2, 1>>])
    [] k[1] = "zero" -> <<>>
    [] k[1] = "node" -> PageChunks([RecPage(t, j, fmt, LAMBDA i : NodeFields(t, j, i, fmt), 1, salt) EXCEPT !.level = k[2]])
    [] k[1] = "nodelike" -> PageChunks([FakeLeaf(t, j, fmt, salt) EXCEPT !.level = k[2]])
    [] k[1] = "sec" -> PageChunks([RecPage(t, j, fmt, LAMBDA i : SecFields(t, j, i, fmt), 0, salt) EXCEPT !.maxtrx = MaxTrx[k[2]], !.index = U8(300)])
    [] k[1] = "seclike" -> PageChunks([FakeLeaf(t, j, fmt, salt) EXCEPT !.maxtrx = MaxTrx[k[2]], !.index = IF k[2] % 2 = 0 THEN @ ELSE U8(301)])
    [] k[1] = "secnode" -> PageChunks([RecPage(t, j, fmt, LAMBDA i : SecFields(t, j, i, fmt) \o <<DW(U4(9))>>, 1, salt) EXCEPT !.level = 1, !.index = U8(300)])
    [] k[1] = "other" -> OtherPage(j, t.space, OtherTypes[k[2]], Noise(salt, 35, 2000), salt)
    [] k[1] = "otherlike" -> LET c == PageChunks(FakeLeaf(t, j, fmt, salt))
                             IN <<<<0, FilHdr(j, NoPage, NoPage, OtherTypes[k[2]], t.space, salt) \o SubSeq(c[1][2], 39, Len(c[1][2]))>>, c[2]>>
\* The rows on a page in a mode.
Rows(t, k, j, mode) ==
  LET r(i) == Replace(t, RowOf(j, i, IF i % 2 = 0 THEN "dead" ELSE "row"))
  IN IF k[1] = "leaf" THEN (IF mode = Live THEN <<r(1), r(3), r(5)>> ELSE <<r(4), r(2)>>)
     ELSE IF k[1] = "gone" /\ mode = Deleted THEN <<r(5), r(4), r(3), r(2), r(1)>> ELSE <<>>

VARIABLE st
Pairs == {<<a, b>> : a \in Kinds3, b \in Kinds3}
\* Random longer files.
KindSeq == SetToSeq(Kinds3)
RandKind(sd, i) == IF R(sd, i, 3) = 0 THEN <<"leaf", 0>> ELSE KindSeq[1 + R(sd, 100 + i, Len(KindSeq))]
Init == st \in [ph : {"first"}, k : Kinds3] \cup [ph : {"rand0"}, k : 1..8] \cup [ph : {"bits"}, k : 1..48]
Next ==
  \/ /\ st.ph = "bits"
     /\ \E kind \in {"sec", "seclike"} : st' = [ph |-> "case", ks |-> <<<<"leaf", 0>>, <<kind, 8 + st.k>>, <<"leaf", 0>>>>, sh |-> 0]
  \/ /\ st.ph = "first"
     /\ \E k2 \in Kinds3, x \in 0..2 :
           \* two kinds, alone, before, behind or around leaf pages
           /\ \/ Deep = 1
              \/ x = 0 /\ (st.k[1] = "leaf" \/ k2[1] = "leaf" \/ st.k = k2)
              \/ x = 1 /\ (R(Seed, (Len(st.k[1]) * 100 + (st.k[2] % 997) * 10 + Len(k2[1]) + k2[2]) % 9973, 6) = 0)
           /\ st' = [ph |-> "case", ks |-> IF x = 0 THEN <<st.k, k2>> ELSE IF x = 1 THEN <<<<"leaf", 0>>, st.k, k2, <<"leaf", 0>>>>
                                           ELSE <<st.k, <<"leaf", 0>>, k2>>, sh |-> 0]
  \/ /\ st.ph = "rand0"
     /\ \E c \in 1..(IF Deep = 1 THEN 150 ELSE 25) :
          LET sd == Seed * 811 + st.k * 1000 + c IN st' = [ph |-> "case", ks |-> [i \in 1..(5 + R(sd, 1, 14)) |-> RandKind(sd, i)], sh |-> st.k * 1000 + c]
KName(k) == k[1] \o ToString(k[2])
RECURSIVE Join(_)
Join(ks) == IF ks = <<>> THEN "" ELSE "-" \o KName(Head(ks)) \o Join(Tail(ks))
Mix(s) == FoldLeft(LAMBDA a, k : (a * 31 + Len(k[1]) * 7 + k[2] + 1) % 10007, s.sh, s.ks)
Case(s) ==
  LET m == Mix(s)
      t == Shapes[1 + (m % Len(Shapes))]
      fm(j) == IF (m \div 4) % 3 = 2 THEN Fmts[1 + (j % 2)] ELSE Fmts[1 + ((m \div 4) % 3)]
      n == Len(s.ks)
      exp(mode) == Cat([j \in 1..n |-> Rows(t, s.ks[j], 2 + j, mode)])
  IN [id |-> "C03-" \o ToString(s.sh) \o (IF s.sh > 0 THEN "" ELSE Join(s.ks)), d |-> "pages" \o Join(s.ks),
      files |-> <<DictFileOf(<<t>>, m), FilePages("t.ibd", 3 + n, FileChunks(TabHead(t, m) \o [j \in 1..n |-> PageOf(t, s.ks[j], 2 + j, fm(j), m + 17 * j)]))>>,
      runs |-> <<DataRun("ibdata1", "t.ibd", t, Live, exp(Live)), DataRun("ibdata1", "t.ibd", t, Deleted, exp(Deleted))>>]
Active == st.ph = "case"
Emit == Active => EmitCase(Case(st))
\* A page without rows does not change what the file holds.
Transparent == Active =>
  LET t == Shapes[1]
      n == Len(st.ks)
  IN \A mode \in {Live, Deleted} :
       Cat([j \in 1..n |-> Rows(t, st.ks[j], 2 + j, mode)]) =
       Cat([j \in 1..n |-> IF HasRows(st.ks[j]) THEN Rows(t, st.ks[j], 2 + j, mode) ELSE <<>>])
=============================================================================
