-------------------------------- MODULE C14 --------------------------------
(***************************************************************************)
(* C14: a recovered update names the right row and restores old values.    *)
(* A state is a table (columns, an ordered key) and how its undo records   *)
(* are encoded:                                                            *)
(*   key    every ordered key of up to MaxN columns, every set of updated  *)
(*          columns                                                        *)
(*   type   every kind of column as the key, as an updated column, before  *)
(*          and behind it, with several values                             *)
(*   width  every width of the undo number, the table id, the transaction  *)
(*          id, the roll pointer, and of the space and page number         *)
(*   big    random tables of many columns                                  *)
(*   tiny   logs of very short records                                     *)
(*   hidden tables with virtual columns, the hidden column of a fulltext   *)
(*          index, and keys of prefixes                                    *)
(***************************************************************************)
EXTENDS Redo

VARIABLE st
MaxN == IF Deep = 1 THEN 5 ELSE 4

(***************************************************************************)
(* key, big: columns of rotating types.                                    *)
(***************************************************************************)
Names == <<"id", "i", "id2", "a", "ab", "b_1", "zz", "value", "Value2", "set">>
ColName(s, j) == IF j <= Len(Names) THEN Str(Names[1 + ((j + s.rot) % Len(Names))]) ELSE Str("c") \o Dig(j, 2)
TypeAt(s, j) == (j * 3 + s.rot) % 6
ColAt(s, j) ==
  LET nn == Contains(s.key, j) \/ (j + s.rot) % 3 = 0
      n == ColName(s, j)
  IN CASE TypeAt(s, j) \in {0, 3} -> Col(n, "int", 4, nn)
       [] TypeAt(s, j) = 1 -> Col(n, "varchar", 30, nn)
       [] TypeAt(s, j) = 2 -> Col(n, "char", 8, nn)
       [] TypeAt(s, j) = 4 -> UCol(n, "int", 2, nn)
       [] TypeAt(s, j) = 5 -> Col(n, "varchar", 300, nn)
ValAt(s, j, r) ==
  IF ~ColAt(s, j).nn /\ (j + r) % 4 = 0 THEN Null
  ELSE CASE TypeAt(s, j) \in {0, 3} -> W(U4(j * 1000 + r))
         [] TypeAt(s, j) = 4 -> W(U2(j * 90 + r))
         [] TypeAt(s, j) = 2 -> S(Str("c") \o Dig(j, 3) \o Dig(r, 1))
         [] OTHER -> S(Str("column") \o Dig(j, 3) \o Str("row") \o Dig(r, 1) \o Rep(120, (r * 37 + j * 50) % (IF TypeAt(s, j) = 5 THEN 250 ELSE 15)))
KeyTab(s) ==
  LET t == TabS([j \in 1..s.n |-> ColAt(s, j)], s.key)
      named == (Len(s.key) + s.rot) % 3 = 0
      secs == << [id |-> U8(400), name |-> Str("ix"), key |-> Reverse([j \in 1..s.n |-> j]), uniq |-> FALSE],
                 [id |-> U8(401), name |-> Str("AA"), key |-> <<s.n>>, uniq |-> TRUE] >>
  IN [t EXCEPT !.keyname = IF named THEN UniqName(s.n + s.rot + 3 * s.key[1]) ELSE @, !.sec = IF s.n <= 16 /\ (s.n + s.rot) % 2 = 0 THEN secs ELSE <<>>]
\* the columns which are not in the key, and the x-th set of them
Others(s) == SelectSeq([j \in 1..s.n |-> j], LAMBDA j : ~Contains(s.key, j))
Chosen(s, x) == LET o == Others(s) IN SelectSeq(o, LAMBDA j : \E i \in 1..Len(o) : o[i] = j /\ (x \div (2^(i - 1))) % 2 = 1)
RandomSet(s, x) == LET o == Others(s)
                       c == SelectSeq(o, LAMBDA j : R(Seed + x, j, IF s.n > 100 THEN 3 + (x % 5) * 15 ELSE 3) = 0)
                   IN IF c = <<>> THEN <<Pick(Seed + x, 1, o)>> ELSE c
Sets(s) == LET m == Len(Others(s)) IN IF s.ph = "key" THEN [x \in 1..(2^m - 1) |-> Chosen(s, x)] ELSE [x \in 1..12 |-> RandomSet(s, x)]
KeyItems(s, t) ==
  [x \in 1..Len(Sets(s)) |->
    LET cs == Sets(s)[x]
    IN UpdItemO(t, [j \in 1..s.n |-> ValAt(s, j, x)], [i \in 1..Len(cs) |-> <<cs[i], ValAt(s, cs[i], x + i)>>],
                [Opt0 EXCEPT !.no = U8(x), !.cmpl = x % 2, !.rest = IF x % 2 = 0 THEN U2(2) ELSE <<>>, !.fmt = IF s.n % 2 = 0 THEN "C" ELSE "R"])]

(***************************************************************************)
(* type.                                                                   *)
(***************************************************************************)
TKinds == Kinds9 \o << <<"int", 2>>, <<"int", 3>>, <<"enum", 2>>, <<"bit", 1>>, <<"bit", 5>>, <<"bit", 8>>, <<"set", 1>>, <<"set", 3>> >>
TVals(k, w) ==
  Vals(k, w) \o
  (CASE k \in {"int", "set"} -> <<W(<<128>> \o Zeros(w - 1)), W(Rep(255, w)), W(<<127>> \o Rep(255, w - 1))>>
     [] k = "bit" -> <<W(<<255>> \o Zeros(w - 1)), W(Rep(255, w))>>
     [] k \in {"varchar"} -> <<S(Rep(98, 40))>>
     [] k = "varbinary" -> <<S(RBytes(Seed, 1, 127)), S(RBytes(Seed, 2, 128)), S(RBytes(Seed, 3, 300))>>
     [] k = "varcharmb" -> <<S(<<230, 150, 135>>), S(Rep(99, 70))>>
     [] k \in Blobs -> <<S(Rep(100, 127)), S(Rep(101, 128)), S(Rep(102, 2000))>>
     [] k = "datetime" -> <<T(<<9999, 12, 31, 23, 59, 59, 0>>)>>
     [] k = "timestamp" -> <<T(<<2038, 1, 19, 3, 14, 7, 0, 0>>)>>
     [] k = "time" -> <<T(<<TRUE, 838, 59, 59, 0>>)>>
     [] OTHER -> <<>>)
TCol(n, k, u, nn) == [n |-> n, k |-> k[1], w |-> k[2], mb |-> IF k[1] = "varcharmb" \/ (k[1] = "charmb" /\ ~u) THEN 4 ELSE 1, u |-> u /\ k[1] = "int", nn |-> nn]
\* role 1: in the key; 2: updated alone; 3: updated between others
TypeTab(s) == LET k == TKinds[s.n]
                  v == TCol(Str("v"), k, s.rot % 2 = 1, s.role = 1)
              IN IF s.role = 1 THEN TabS(<<Col(Str("x"), "varchar", 20, FALSE), v, ID>>, IF s.rot < 2 THEN <<2>> ELSE <<2, 3>>)
                 ELSE TabS(<<Col(Str("x"), "varchar", 20, FALSE), ID, v, Col(Str("y"), "int", 4, FALSE)>>, <<2>>)
\* the redundant format stores the full length of fixed types, never a shorter one
TypeItems(s, t) ==
  LET k == TKinds[s.n]
      vs == TVals(k[1], k[2])
      x == S(Str("behind"))
      o(i) == [Opt0 EXCEPT !.no = U8(i), !.fmt = IF s.rot >= 2 THEN "R" ELSE "C"]
  IN Cat([i \in 1..Len(vs) |->
       IF s.role = 1 THEN <<UpdItemO(t, <<Null, vs[i], Id(i)>>, <<<<1, x>>>>, o(i))>>
       ELSE IF s.role = 2 THEN <<UpdItemO(t, <<Null, Id(i), Null, Null>>, <<<<3, vs[i]>>>>, o(i)), UpdItemO(t, <<Null, Id(i), Null, Null>>, <<<<3, Null>>>>, o(i))>>
       ELSE <<UpdItemO(t, <<Null, Id(i), Null, Null>>, <<<<1, x>>, <<3, vs[i]>>, <<4, W(U4(i))>>>>, o(i)),
              UpdItemO(t, <<Null, Id(i), Null, Null>>, <<<<1, Null>>, <<3, Null>>, <<4, W(U4(i))>>>>, o(i))>>])

(***************************************************************************)
(* width.                                                                  *)
(***************************************************************************)
WTab(s) == [TU EXCEPT !.id = IF s.role = 1 THEN AnyWord64(s.n) ELSE TU.id, !.idx = U8(177)]
WItem(s, t, y) ==
  LET e == IF s.role = 1 THEN AnyWord64(s.n * 31 + y) ELSE AnyWord64(s.n)
      o == CASE s.role = 1 -> [Opt0 EXCEPT !.no = e]
             [] s.role = 2 -> [Opt0 EXCEPT !.no = e, !.ext = y % 2 = 0]
             [] s.role = 3 -> [Opt0 EXCEPT !.trx = e, !.roll = AnyWord64(s.n * 9 + y)]
             [] s.role = 4 -> [Opt0 EXCEPT !.roll = e, !.info = RByte(s.n, y)]
             [] s.role = 5 -> [Opt0 EXCEPT !.space = IF y % 2 = 0 THEN Edge(s.n) ELSE BitWord(4, s.n % 33, s.n), !.page = IF y % 3 = 0 THEN Edge(1 + (s.n \div NEdge)) ELSE BitWord(4, (s.n \div 7) % 33, s.n), !.cmpl = y % 4, !.single = y % 2 = 0,
                                           !.rest = IF y = 1 THEN <<0, 2>> ELSE IF y = 2 THEN RBytes(s.n, 5, 60) ELSE <<>>]
  IN UpdItemO(t, URow(s.n), <<<<2, S(Str("w") \o Dig(s.n, 3) \o Dig(y, 1))>>, <<3, W(U4(s.n))>>>>, o)

(***************************************************************************)
(* hidden.  vm: the virtual columns.  pm = 1: the key has prefixes of its  *)
(* texts, the values of which are not longer.                              *)
(***************************************************************************)
IsText(c) == c.k \in {"varchar", "char"}
HidTab(s) ==
  LET c(j) == IF j \in s.vm THEN VirtCol(ColName(s, j), IF (j + s.rot) % 2 = 0 THEN 1 ELSE 4) ELSE ColAt(s, j)
      cols == [j \in 1..s.n |-> c(j)] \o (IF s.fts THEN <<FtsCol>> ELSE <<>>)
      n == Len(cols)
      text == IF s.fts THEN << [id |-> U8(402), name |-> Str("FTS_DOC_ID_INDEX"), key |-> <<n>>, uniq |-> TRUE],
                               [id |-> U8(403), name |-> Str("ft"), key |-> <<1>>, uniq |-> FALSE, typ |-> 32] >> ELSE <<>>
      onvirt == IF s.vm = {} THEN <<>> ELSE << [id |-> U8(404), name |-> Str("iv"), key |-> SetToSeq(s.vm), uniq |-> FALSE, typ |-> 128] >>
  IN [TabS(cols, s.key) EXCEPT !.sec = text \o onvirt]
     @@ (IF s.vm # {} THEN [virt |-> TRUE] ELSE <<>>)
     @@ (IF s.pm # 0 THEN [pfx |-> [i \in 1..Len(s.key) |-> IF IsText(cols[s.key[i]]) THEN (IF IsText(cols[s.key[i]]) /\ cols[s.key[i]].k = "char" THEN 7 ELSE 20) ELSE 0]] ELSE <<>>)
HidVal(t, j, x) ==
  CASE t.cols[j].k = "ftsdoc" -> W(U8(66000 + x))
    [] t.cols[j].k = "virtual" -> IF (j + x) % 3 = 0 THEN Null
                                  ELSE IF t.cols[j].mb = 1 THEN W(U4(j * 100 + x)) ELSE S(Rep(118, (x * 37) % 81))
    [] t.cols[j].k = "int" -> W(UW(j * 90 + x, t.cols[j].w))
    [] OTHER -> IF ~t.cols[j].nn /\ (j + x) % 4 = 0 THEN Null ELSE S(Str("c") \o Dig(j, 2) \o Str("r") \o Dig(x, 2))
HidItems(s, t) ==
  LET others == SelectSeq([j \in 1..Len(t.cols) |-> j], LAMBDA j : ~Contains(t.key, j))
      m == Len(others)
      few == m <= 6
  IN [x \in 1..(IF few THEN 2^m - 1 ELSE 12) |->
       LET cs == IF few THEN SelectSeq(others, LAMBDA j : \E i \in 1..m : others[i] = j /\ (x \div (2^(i - 1))) % 2 = 1)
                 \* one column, a few, many; one of the first and of the last ones
                 ELSE LET ix == {1 + R(s.n + x, 1, m), IF x % 2 = 0 THEN m - (x \div 4) ELSE 1 + (x \div 4)} \cup (IF x % 4 < 2 THEN {} ELSE {i \in 1..m : R(s.n + x, i, IF x > 9 THEN 2 ELSE 9) = 0})
                      IN SelectSeq(others, LAMBDA j : \E i \in ix : others[i] = j)
       IN UpdItemO(t, [j \in 1..Len(t.cols) |-> HidVal(t, j, x)], [i \in 1..Len(cs) |-> <<cs[i], HidVal(t, cs[i], x + i)>>],
                   [Opt0 EXCEPT !.no = U8(x), !.cmpl = x % 2, !.fmt = IF s.n % 2 = 0 THEN "C" ELSE "R",
                                !.rest = IF x % 3 = 0 THEN <<0, 2>> ELSE <<>>])]

(***************************************************************************)
(* tiny: logs of so many of the shortest updates.                          *)
(***************************************************************************)
(***************************************************************************)
Init == \/ st \in [ph : {"key0"}, n : 1..MaxN, rot : {0}, key : {<<>>}, role : {0}]
        \/ st \in [ph : {"big0"}, n : {7, 9, 16, 17, 33, 64, 130, 200, 255, 256, 300, 700}, rot : {0}, key : {<<>>}, role : {0}]
        \/ st \in [ph : {"type0"}, n : 1..Len(TKinds), rot : {0}, key : {<<>>}, role : {0}]
        \/ st \in [ph : {"tiny"}, n : 1..20, rot : {0}, key : {<<>>}, role : {0}]
        \/ st \in [ph : {"hidden0"}, n : 2..MaxN, rot : {0}, key : {<<>>}, role : {0}, vm : {{}}, fts : {FALSE}, pm : {0}]
        \/ st \in [ph : {"hidbig0"}, n : {9, 17, 40, 130, 258, 300, 700}, rot : {0}, key : {<<>>}, role : {0}, vm : {{}}, fts : {FALSE}, pm : {0}]
        \/ st \in [ph : {"width0"}, n : 1..(NEdge * NEdge + 65), rot : {0}, key : {<<>>}, role : {0}]
RandKey(n, k, salt) ==
  LET step(acc, i) == LET free == SelectSeq([j \in 1..n |-> j], LAMBDA j : ~Contains(acc, j))
                      IN Append(acc, free[1 + R(salt, i, Len(free))])
  IN FoldLeft(step, <<>>, [i \in 1..k |-> i])
Next ==
  \/ /\ st.ph \in {"key0", "key"} /\ Len(st.key) < st.n - 1
     /\ \E j \in 1..st.n : ~Contains(st.key, j) /\ st' = [st EXCEPT !.ph = "key", !.key = Append(@, j), !.rot = (@ * 5 + j + 1) % 10]
  \/ /\ st.ph = "big0"
     /\ \E k \in {1, 2, 3, 5}, x \in 1..(IF Deep = 1 THEN 20 ELSE 4) :
          st' = [st EXCEPT !.ph = "big", !.rot = (k + x) % 10, !.key = RandKey(st.n, k, Seed * 31 + x * 7 + k), !.role = x]
  \/ /\ st.ph = "type0"
     /\ \E role \in 1..3, rot \in 0..3 :
          /\ role = 1 => TKinds[st.n][1] \notin Blobs
          /\ st' = [st EXCEPT !.ph = "type", !.role = role, !.rot = rot]
  \/ /\ st.ph = "hidden0"
     /\ \E vm \in SUBSET (1..st.n), fts \in BOOLEAN, pm \in 0..1, k1 \in 1..st.n, k2 \in 0..st.n, x \in 0..(IF Deep = 1 THEN 5 ELSE 1) :
          LET key == IF k2 = 0 THEN <<k1>> ELSE <<k1, k2>>
              s == [st EXCEPT !.ph = "hidden", !.vm = vm, !.fts = fts, !.pm = pm, !.key = key, !.rot = (k1 * 3 + k2 * 5 + Cardinality(vm) + st.n + x) % 6]
          IN /\ k1 # k2 /\ {key[i] : i \in 1..Len(key)} \cap vm = {}
             /\ vm # {} \/ fts \/ pm # 0
             /\ pm # 0 => \E i \in 1..Len(key) : IsText(ColAt(s, key[i]))
             /\ (Deep = 0 /\ st.n = 4) => (x + k1 + k2 + pm + Cardinality(vm)) % 4 = (IF fts THEN 1 ELSE 2)
             /\ (Deep = 1 /\ st.n = 5) => (x + k1 + k2 + pm + Cardinality(vm)) % 9 = (IF fts THEN 1 ELSE 2)
             /\ (2 * Len(key) < 2 * st.n + (IF fts THEN 1 ELSE 0))
             /\ st' = s
  \/ /\ st.ph = "hidbig0"
     /\ \E x \in 1..(IF Deep = 1 THEN 12 ELSE 4) :
          LET key == RandKey(st.n, 1 + (x % 3), Seed * 37 + x * 11 + st.n)
          IN st' = [st EXCEPT !.ph = "hidden", !.rot = (x + st.n) % 10, !.role = x, !.key = key, !.fts = (x % 3 = 0),
                              !.vm = {j \in 1..st.n : ~Contains(key, j) /\ R(Seed + x, j + st.n, 1 + x) = 0}]
  \/ /\ st.ph = "width0"
     /\ \E role \in 1..5 : st' = [st EXCEPT !.ph = "width", !.role = role]

Active == st.ph \in {"hidden", "tiny", "key", "big", "type", "width"}
TabOf(s) == CASE s.ph = "hidden" -> HidTab(s) [] s.ph \in {"key", "big"} -> KeyTab(s) [] s.ph = "type" -> TypeTab(s) [] s.ph = "tiny" -> TM [] OTHER -> WTab(s)
Items(s) == LET t == TabOf(s)
            IN CASE s.ph = "hidden" -> HidItems(s, t) [] s.ph \in {"key", "big"} -> KeyItems(s, t) [] s.ph = "type" -> TypeItems(s, t) [] s.ph = "tiny" -> [y \in 1..s.n |-> Tiny(y + s.n)] [] OTHER -> [y \in 1..5 |-> WItem(s, t, y)]
KeyText(k) == FoldLeft(LAMBDA a, j : a \o "." \o ToString(j), "", k)
Name(s) == "C14-" \o s.ph \o "-" \o ToString(s.n) \o "-" \o ToString(s.rot) \o "-" \o ToString(s.role) \o KeyText(s.key)
           \o (IF s.ph # "hidden" THEN "" ELSE "-" \o (IF s.n > 8 THEN "" ELSE KeyText(SetToSeq(s.vm))) \o (IF s.fts THEN "f" ELSE "-") \o ToString(s.pm))
Case(s) ==
  LET items == Items(s)
      t == TabOf(s)
  IN [id |-> Name(s), d |-> "updates of a table",
      files |-> <<DictFileOf(IF s.n % 2 = 0 \/ s.n > 20 THEN <<t>> ELSE <<Tab(39, 22, DB, Str("s"), Reverse(t.cols), <<1>>), t>>, Seed), LogFile("log0", items, Seed + s.n)>>,
      runs |-> <<RedoAll("ibdata1", "log0", ExpOf(items))>>]
\* An old value which is stored outside of its row (a known finding: no
\* statement).
ExtTab == Tab(39, 22, DB, Str("s"), <<ID, Col(Str("b"), "extblob", 2, FALSE), Col(Str("y"), "int", 2, TRUE)>>, <<1>>)
ExtFull == Cat([i \in 1..300 |-> Dig(i, 4)])
ExtStored == SubSeq(ExtFull, 1, 768) \o Zeros(3) \o <<23>> \o U4(4) \o U4(38) \o U4(0) \o U4(1200 - 768)
ExtItem ==
  LET o == Opt0
  IN Item(UndoLog(o, UndoHead(o, ExtTab.id) \o UndoKey(<<Enc(ID, Id(7), "C")>>) \o Comp(2)
                     \o UndoExt(3, ExtStored) \o Comp(4) \o Comp(2) \o FlipTop(U2(77))),
          <<Update(ExtTab, <<Id(7), Null, Null>>, <<<<2, <<"x", ExtStored, ExtFull>>>>, <<3, W(U2(77))>>>>)>>)
ExtCase == LET items == <<Marker(1), ExtItem, Marker(2)>>
           IN [id |-> "C14-offpage", d |-> "an old value outside of its row",
               files |-> <<DictFileOf(<<ExtTab, TU>>, Seed), LogFile("log0", items, Seed)>>,
               runs |-> <<RedoAll("ibdata1", "log0", ExpOf(items))>>]
\* A key which has only a prefix of the value (a known finding: the condition
\* compares the whole column with the prefix).
PfxCase == LET t == [TabS(<<Col(Str("a"), "varchar", 40, TRUE), Col(Str("n"), "int", 4, FALSE)>>, <<1>>) EXCEPT !.name = Str("s"), !.id = U8(41), !.idx = U8(151)]
                    @@ [pfx |-> <<5>>]
               items == <<Marker(1), UpdItem(t, <<S(Str("longer than five")), Null>>, <<<<2, W(U4(9))>>>>), Marker(2)>>
           IN [id |-> "C14-prefix", d |-> "a key of a prefix",
               files |-> <<DictFileOf(<<t, TU>>, Seed), LogFile("log0", items, Seed)>>,
               runs |-> <<RedoAll("ibdata1", "log0", ExpOf(items))>>]
Emit == (st.ph = "tiny" /\ st.n = 2 => EmitCase(PfxCase)) /\ (st.ph = "tiny" /\ st.n = 1 => EmitCase(ExtCase)) /\ IF ~Active THEN TRUE ELSE EmitCase(Case(st))
Unambiguous == Active => Parseable(Items(st))
=============================================================================
