-------------------------------- MODULE C18 --------------------------------
(***************************************************************************)
(* C18: an undo record which cannot be decoded costs only itself.  Between *)
(* good records the log has undo records whose payload is cut, changed in  *)
(* a byte, refers to unknown tables or columns, has contradicting lengths, *)
(* or is arbitrary.  The recorded length of the record stays right.        *)
(***************************************************************************)
EXTENDS Redo

TT == Tab(43, 26, DB, Str("w"), <<Col(Str("x"), "varchar", 30, FALSE), ID, Col(Str("big"), "int", 8, FALSE), Col(Str("dt"), "datetime", 0, FALSE), Col(Str("d"), "double", 8, FALSE),
                                  Col(Str("ts"), "timestamp", 3, FALSE), Col(Str("tm"), "time", 0, FALSE), Col(Str("c"), "char", 10, FALSE),
                                  Col(Str("y"), "year", 1, FALSE), Col(Str("da"), "date", 0, FALSE), Col(Str("bl"), "blob", 2, FALSE), Col(Str("bi"), "bit", 6, FALSE), Col(Str("f"), "float", 4, FALSE),
                                  MbCol(Str("cm"), "charmb", 5, 4, FALSE)>>, <<2, 1>>)
T2 == Tab(44, 27, DB, Str("two"), <<Col(Str("k1"), "datetime", 0, TRUE), Col(Str("k2"), "date", 0, TRUE), Col(Str("k3"), "double", 8, TRUE), Col(Str("v"), "varchar", 20, FALSE)>>, <<3, 1, 2>>)
OT(k) == [Opt0 EXCEPT !.no = U8(k), !.rest = IF k % 2 = 0 THEN <<>> ELSE U2(8) \o Rep(20, 6)]
\* The records which are damaged: <<table, row, set>>.
Rows == <<
  <<TU, URow(1), <<<<2, S(Str("aaa"))>>, <<3, W(U4(1))>>>> >>,
  <<TU, URow(2), <<<<4, S(Rep(97, 150))>>, <<2, Null>>>> >>,
  <<TT, [j \in 1..14 |-> IF j = 2 THEN Id(3) ELSE IF j = 1 THEN S(Str("key")) ELSE Null],
        <<<<3, W(U8(3))>>, <<4, T(<<2019, 1, 2, 3, 4, 5, 0>>)>>, <<5, F(<<1, 2, 3, 4, 5, 6, 7, 64>>)>>, <<6, T(<<2019, 12, 31, 23, 59, 58, 123, 0>>)>>>> >>,
  <<TT, [j \in 1..14 |-> IF j = 2 THEN Id(4) ELSE IF j = 1 THEN S(<<>>) ELSE Null],
        <<<<7, T(<<TRUE, 1, 2, 3, 0>>)>>, <<8, S(Str("characters"))>>, <<9, T(<<2019>>)>>, <<10, T(<<2019, 12, 31>>)>>, <<12, W(<<1, 2, 3, 4, 5, 6>>)>>, <<13, F(<<1, 2, 3, 64>>)>>,
          <<14, S(Str("five!"))>>, <<11, S(<<>>)>>>> >>,
  <<T2, <<T(<<2019, 1, 2, 3, 4, 5, 0>>), T(<<2019, 12, 31>>), F(<<1, 2, 3, 4, 5, 6, 7, 64>>), Null>>, <<<<4, S(Str("v"))>>>> >> >>
NR == Len(Rows)
Opt(r, typ) == [OT(r) EXCEPT !.typ = typ]
SetOf(r) == SetBytes(Rows[r][1], Rows[r][3], "C")
KeyOf(r) == KeyBytes(Rows[r][1], Rows[r][2], "C")
Payload(r, typ) == UndoPayload(Opt(r, typ), Rows[r][1].id, KeyOf(r), SetOf(r))
\* the part without which there is no statement
Needed(r) == Len(UndoPayload([Opt(r, UpdExist) EXCEPT !.rest = <<>>], Rows[r][1].id, KeyOf(r), SetOf(r)))
Stmt(r) == Update(Rows[r][1], Rows[r][2], Rows[r][3])
AnyOne == [t |-> "any", max |-> 1]
Bad(r, payload) == Item(UndoLog(Opt(r, UpdExist), payload), <<>>)
Maybe(r, payload) == Item(UndoLog(Opt(r, UpdExist), payload), <<AnyOne>>)

CutItem(r, typ, n) == Item(UndoLog(Opt(r, typ), SubSeq(Payload(r, typ), 1, n)), IF typ = UpdExist /\ n >= Needed(r) THEN <<Stmt(r)>> ELSE <<>>)
Change(b, v) == CASE v = 1 -> 0 [] v = 2 -> 255 [] v = 3 -> 240 [] v = 4 -> (b + 1) % 256 [] v = 5 -> (b + 255) % 256 [] v = 6 -> (b + 128) % 256 [] v = 7 -> 128 [] v = 8 -> 225 [] OTHER -> 127
MutItem(r, typ, n, v) == LET p == Payload(r, typ) IN Maybe(r, [p EXCEPT ![n] = Change(@, v)])

\* Contradictions, each of which leaves no statement.
Huge == <<<<240, 255, 255, 255, 254>>, <<240, 128, 0, 0, 0>>, <<240, 127, 255, 255, 255>>, <<224 + 15, 255, 255, 255>>, <<223, 255, 255>>, <<191, 255>>, <<240, 255, 255, 255, 255>>>>
Head1(r) == UndoHead(Opt(r, UpdExist), Rows[r][1].id)
Contradict(r, x) ==
  LET h == Head1(r)
      big == Huge[1 + (x % Len(Huge))]
      set == SetOf(r)
  IN CASE x \div 10 = 0 -> Bad(r, h \o big \o KeyOf(r)[1] \o UndoUpd(set))                                      \* key length
       [] x \div 10 = 1 -> Bad(r, h \o UndoKey(KeyOf(r)) \o big \o Tail(UndoUpd(set)))  \* number of columns
       [] x \div 10 = 2 -> Bad(r, h \o UndoKey(KeyOf(r)) \o Comp(1) \o big \o Comp(1) \o <<65>>)                \* column position
       [] x \div 10 = 3 -> Bad(r, h \o UndoKey(KeyOf(r)) \o Comp(2) \o Comp(set[1][1]) \o Comp(Len(set[1][2][1])) \o set[1][2][1] \o Comp(set[1][1])
                                  \o (IF x = 34 THEN <<223, 255, 254>> ELSE big) \o <<65>>)                      \* value length
       [] x \div 10 = 4 -> Bad(r, UndoHead(Opt(r, UpdExist), Edge64(x * 17 + 5)) \o UndoKey(KeyOf(r)) \o UndoUpd(set))     \* table
       [] x \div 10 = 5 -> Bad(r, h \o UndoKey(KeyOf(r)) \o UndoUpd(<<<<Len(Rows[r][1].cols) + 2 + (x % 10), <<<<65>>>>>>>>))  \* column behind the last one
       \* old values which are not in the record
       [] x \div 10 = 7 -> LET ref == RBytes(x, 1, 20 + 48 * (x % 10))  n == Len(ref)
                           IN Maybe(r, h \o UndoKey(KeyOf(r)) \o Comp(IF x % 3 = 0 THEN 2 ELSE 1)
                                       \o (IF x % 2 = 0 THEN UndoExt(PosIn(PhysCols(Rows[r][1]), Len(Rows[r][1].cols)), ref)
                                            ELSE UndoExtLong(PosIn(PhysCols(Rows[r][1]), Len(Rows[r][1].cols)), ref, n \div 2))
                                       \o (IF x % 3 = 0 THEN SubSeq(UndoUpd(<<set[1]>>), 2, Len(UndoUpd(<<set[1]>>))) ELSE <<>>))
       [] x \div 10 = 6 -> Bad(r, h \o UndoKey(KeyOf(r)) \o UndoUpd(set \o <<<<200, <<RBytes(x, 1, x)>>>>>>))
       [] OTHER -> Bad(r, h \o UndoKey(KeyOf(r)) \o UndoUpd(<<<<1023 + x, <<RBytes(x, 1, x)>>>>>> \o set))
Random(x) == Maybe(1 + (x % NR), LET n == R(x, 1, 140)  p == RBytes(x, 2, n) IN IF x % 3 = 0 \/ n < 9 THEN p ELSE <<12 + 16 * R(x, 3, 2)>> \o <<R(x, 4, 128), 40 + R(x, 5, 5), 0, 0>> \o SubSeq(p, 1, 4) \o Comp(0) \o p)

VARIABLE st
Types == {UpdExist, InsertRec, DelMark, UpdDel}
Init == \/ st \in [ph : {"cut0", "mut0"}, r : 1..NR, typ : Types]
        \/ st \in [ph : {"contra"}, r : 1..NR, typ : 0..8]
        \/ st \in [ph : {"rand0"}, r : 1..8, typ : {0}]
Chunk == 12
NChunks(r, typ) == (Len(Payload(r, typ)) + Chunk - 1) \div Chunk
Next ==
  \/ /\ st.ph = "cut0" /\ \E c \in 1..NChunks(st.r, st.typ) : st' = [ph |-> "cut", r |-> st.r, typ |-> st.typ, c |-> c, v |-> 0]
  \/ /\ st.ph = "mut0" /\ \E c \in 1..NChunks(st.r, st.typ), v \in 1..9 : st' = [ph |-> "mut", r |-> st.r, typ |-> st.typ, c |-> c, v |-> v]
  \/ /\ st.ph = "rand0" /\ \E c \in 1..(IF Deep = 1 THEN 400 ELSE 40) : st' = [ph |-> "rand", r |-> st.r, typ |-> 0, c |-> c, v |-> 0]
Places(s) == SelectSeq([i \in 1..Chunk |-> (s.c - 1) * Chunk + i], LAMBDA n : n <= Len(Payload(s.r, s.typ)))
BadItems(s) ==
  CASE s.ph = "cut" -> [i \in 1..Len(Places(s)) |-> CutItem(s.r, s.typ, Places(s)[i] - 1)]
    [] s.ph = "mut" -> [i \in 1..Len(Places(s)) |-> MutItem(s.r, s.typ, Places(s)[i], s.v)]
    [] s.ph = "contra" -> [i \in 1..10 |-> Contradict(s.r, s.typ * 10 + i - 1)]
    [] s.ph = "rand" -> [i \in 1..10 |-> Random(Seed * 1009 + s.c * 100 + s.r * 10 + i)]
\* after the last of them comes one which fails, or a good one
Items(s) == LET b == BadItems(s)
            IN Cat([i \in 1..Len(b) |-> <<b[i], IF i % 3 = 0 THEN Plain(<<MultiEnd>>) ELSE Marker(i)>>])
               \o (IF s.r % 2 = 0 THEN <<>> ELSE <<b[1], b[1], UpdItemO(TT, Rows[3][2], Rows[3][3], OT(9))>>)
Active == st.ph \in {"cut", "mut", "contra", "rand"}
Name(s) == "C18-" \o s.ph \o "-" \o ToString(s.r) \o "-" \o ToString(s.typ) \o (IF s.ph = "contra" THEN "" ELSE "-" \o ToString(s.c) \o "-" \o ToString(s.v))
Case(s) ==
  LET items == Items(s)
  IN [id |-> Name(s), d |-> "damaged undo records between good ones",
      files |-> <<DictFileOf(<<TU, TT, T2>>, Seed), LogFile("log0", items, Seed + s.r)>>,
      runs |-> <<RedoAll("ibdata1", "log0", ExpOf(items)) @@ [lvl |-> IF s.ph = "contra" THEN "default" ELSE ""]>>]
Emit == Active => EmitCase(Case(st))
Unambiguous == Active => Parseable(Items(st))
=============================================================================
