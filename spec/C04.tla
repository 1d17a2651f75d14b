-------------------------------- MODULE C04 --------------------------------
(***************************************************************************)
(* C04: values are printed in declared column order.  A state is a table   *)
(* with n columns and a clustered key, an ordered selection of them; a     *)
(* step appends one more column to the key.  So every key of every order   *)
(* over up to MaxN columns is reached, besides random keys of tables with  *)
(* many columns.  Every value tells its column and its row.                *)
(***************************************************************************)
EXTENDS Gen

\* Some resemble the names of columns and indexes which the server adds.
Names == <<"id", "i", "id2", "PRIMARY", "a", "DB_ROW", "b_1", "DB_TRX_ID2", "value", "Value2", "DB_NAME", "GEN_CLUST_INDEX", "ROLL_PTR", "ab", "ID_", "FTS_DOC_ID">>
ColName(s, j) == IF j <= Len(Names) THEN Str(Names[1 + ((j + s.rot) % Len(Names))]) ELSE Str("c") \o Dig(j, 2)
TypeAt(s, j) == (j * 3 + s.rot) % 6
\* The types rotate; columns outside of the key are partly nullable.
ColAt(s, j) ==
  LET inkey == Contains(s.key, j)
      nn == inkey \/ (j + s.rot) % 3 = 0
      n == ColName(s, j)
  IN CASE TypeAt(s, j) \in {0, 3} -> Col(n, "int", 4, nn)
       [] TypeAt(s, j) = 1 -> Col(n, "varchar", 30, nn)
       [] TypeAt(s, j) = 2 -> Col(n, "char", 8, nn)
       [] TypeAt(s, j) = 4 -> UCol(n, "int", 2, nn)
       [] TypeAt(s, j) = 5 -> Col(n, "varchar", 300, nn)
ValAt(s, j, r) ==
  IF ~ColAt(s, j).nn /\ (j + r) % 4 = 0 THEN Null
  ELSE CASE TypeAt(s, j) \in {0, 3} -> W(U4(j * 1000 + r))
         [] TypeAt(s, j) = 4 -> W(U2(j * 90 + r))
         [] TypeAt(s, j) = 2 -> S(Str("c") \o Dig(j, 3) \o Dig(r, 1))
         [] OTHER -> S(Str("column") \o Dig(j, 3) \o Str("row") \o Dig(r, 1))
NRows == 4
RowAt(s, r) == [j \in 1..s.n |-> ValAt(s, j, r)]

(***************************************************************************)
(* hidden: some columns are virtual, the hidden column of a fulltext index *)
(* is behind them, and the key has only prefixes of some columns.          *)
(***************************************************************************)
VirtAt(s, j) == VirtCol(ColName(s, j), IF (j + s.rot) % 2 = 0 THEN 1 ELSE 4)
VirtVal(j, r) == IF (j + r) % 3 = 0 THEN Null ELSE W(U4(j + r))
\* Prefixes of the key: of no column, of all texts, of the first or the last text only.
PfxLen(s, i) ==
  LET j == s.key[i]
      text == ColAt(s, j).k \in {"varchar", "char"}
      len == IF s.pm = 4 /\ ColAt(s, j).k = "varchar" THEN 20 ELSE <<3, 1, 7>>[1 + ((j + s.rot) % 3)]
  IN IF ~text \/ s.pm = 0 \/ (s.pm = 2 /\ i > 1) \/ (s.pm = 3 /\ i = 1) THEN 0 ELSE len
HasText(s) == \E i \in 1..Len(s.key) : ColAt(s, s.key[i]).k \in {"varchar", "char"}
HidTab(s) ==
  LET cols == [j \in 1..s.n |-> IF j \in s.vm THEN VirtAt(s, j) ELSE ColAt(s, j)] \o (IF s.fts THEN <<FtsCol>> ELSE <<>>)
      n == Len(cols)
      text == IF s.fts THEN << [id |-> U8(402), name |-> Str("FTS_DOC_ID_INDEX"), key |-> <<n>>, uniq |-> TRUE],
                               [id |-> U8(403), name |-> Str("ft"), key |-> <<1>>, uniq |-> FALSE, typ |-> 32] >> ELSE <<>>
      onvirt == IF s.vm = {} \/ s.rot % 2 = 0 THEN <<>>
                ELSE << [id |-> U8(404), name |-> Str("iv"), key |-> SetToSeq(s.vm), uniq |-> FALSE, typ |-> 128] >>
  IN [TabS(cols, s.key) EXCEPT !.sec = text \o onvirt]
     @@ (IF s.vm # {} THEN [virt |-> TRUE] ELSE <<>>)
     @@ (IF s.pm # 0 THEN [pfx |-> [i \in 1..Len(s.key) |-> PfxLen(s, i)]] ELSE <<>>)
HidRow(s, r) == [j \in 1..s.n |-> IF j \in s.vm THEN VirtVal(j, r) ELSE ValAt(s, j, r)] \o (IF s.fts THEN <<W(U8(70000 + r))>> ELSE <<>>)

(***************************************************************************)
(* pfx: the key has the first n bytes of a text, for all lengths at which  *)
(* its storage changes, alone, before or behind another column.            *)
(***************************************************************************)
PKinds == {<<"varchar", 200, 1>>, <<"varchar", 255, 1>>, <<"varchar", 1000, 1>>, <<"char", 200, 1>>, <<"char", 255, 1>>, <<"binary", 255, 1>>, <<"varbinary", 900, 1>>,
           <<"blob", 2, 1>>, <<"text", 1, 1>>, <<"text", 3, 1>>, <<"varcharmb", 80, 3>>, <<"varcharmb", 300, 4>>, <<"charmb", 100, 3>>}
PLens == {2, 10, 63, 64, 127, 128, 129, 199, 250, 254, 255, 256, 257, 300, 511, 512, 766, 767}
PMax(ty) == IF ty[1] = "text" /\ ty[2] = 1 THEN 255 ELSE IF ty[1] \in Blobs THEN 1200 ELSE ty[2]
PLensOf(ty) == {n \in PLens : n % ty[3] = 0 /\ (IF ty[1] \in Blobs THEN TRUE ELSE n < ty[2] * ty[3])}
               \cup (IF ty[3] = 1 THEN {} ELSE {ty[3] * k : k \in {1, 21, 42, 43, 63}})
PKeys == << <<2>>, <<2, 1>>, <<1, 2>>, <<4, 2>> >>
PfxTab(s) ==
  LET ty == s.ty
      v == [n |-> Str("v"), k |-> ty[1], w |-> ty[2], mb |-> ty[3], u |-> FALSE, nn |-> TRUE]
      t == TabS(<<ID, v, Col(Str("z"), "varchar", 260, FALSE), Col(Str("b"), "int", 2, TRUE)>>, PKeys[s.k])
  IN t @@ [pfx |-> [i \in 1..Len(t.key) |-> IF t.key[i] = 2 THEN s.len ELSE 0]]
PText(n, r) == [i \in 1..n |-> 97 + ((i * 7 + r + (i \div 26)) % 26)]
PfxRows(s) ==
  LET n == IF s.ty[3] = 1 THEN s.len ELSE s.len \div s.ty[3]      \* in characters
      ls == SetToSortSeq({l \in {0, 1, 5, n - 1, n, n + 1, n + 2, 100, 127, 128, 129, 200, 255, 256, 257, 600, PMax(s.ty)} : l <= PMax(s.ty)}, <)
  IN [r \in 1..Len(ls) |-> <<Id(r), S(IF s.ty[1] = "binary" THEN PText(ls[r], r) \o Zeros(255 - ls[r]) ELSE PText(ls[r], r)),
                             IF r % 4 = 3 THEN Null ELSE S(Str("z") \o Dig(r, 3)), W(U2(3000 + r))>>]
PfxName(s) == "C04-pfx-" \o s.ty[1] \o ToString(s.ty[2]) \o "x" \o ToString(s.ty[3]) \o "-" \o ToString(s.len) \o "-" \o ToString(s.k) \o "-" \o s.fmt
PfxLenCase(s) == RowsCase(PfxName(s), "a key of a prefix " \o PfxName(s), PfxTab(s), s.fmt, PfxRows(s), Seed + s.len)

VARIABLE st
MaxN == IF Deep = 1 THEN 6 ELSE 5
Bigs == {<<n, k>> \in {7, 8, 9, 10, 16, 17, 20, 33, 64, 100, 127, 128, 200, 255, 256, 300, 700} \X {0, 1, 2, 3, 5, 8, 16} : k <= n}
Init == \/ st \in [ph : {"small"}, n : 1..MaxN, rot : {0}, key : {<<>>}]
        \/ st \in [ph : {"hidden0"}, n : 1..(IF Deep = 1 THEN 5 ELSE 4), rot : {0}, key : {<<>>}, vm : {{}}, fts : {FALSE}, pm : {0}]
        \/ st \in [ph : {"hidbig0"}, n : {9, 17, 40, 130, 258, 300, 700}, rot : {0}, key : {<<>>}, vm : {{}}, fts : {FALSE}, pm : {0}]
        \/ st \in [ph : {"pfx0"}, ty : PKinds]
        \/ st \in [ph : {"size"}, n : {0}, rot : {0}, key : {<<>>}]
\* k different columns in a random order
RandKey(n, k, salt) ==
  LET step(acc, i) == LET free == SelectSeq([j \in 1..n |-> j], LAMBDA j : ~Contains(acc, j))
                      IN Append(acc, free[1 + R(salt, i, Len(free))])
  IN FoldLeft(step, <<>>, [i \in 1..k |-> i])
Next ==
  \/ /\ st.ph = "small" /\ Len(st.key) < st.n
     /\ \E j \in 1..st.n : ~Contains(st.key, j) /\ st' = [st EXCEPT !.key = Append(@, j), !.rot = (@ * 5 + j + 1) % 16]
  \/ /\ st.ph = "hidden0"
     /\ \E vm \in SUBSET (1..st.n), fts \in BOOLEAN, pm \in 0..4, k1 \in 0..st.n, k2 \in 0..st.n, x \in 0..(IF Deep = 1 THEN 5 ELSE 0) :
          LET key == IF k1 = 0 THEN <<>> ELSE IF k2 = 0 THEN <<k1>> ELSE <<k1, k2>>
              rot == (k1 * 3 + k2 * 5 + Cardinality(vm) + st.n + x) % 6
              s == [st EXCEPT !.ph = "hidden", !.vm = vm, !.fts = fts, !.pm = pm, !.key = key, !.rot = rot]
          IN /\ k1 = 0 => k2 = 0
             /\ k1 = 0 \/ k1 # k2
             /\ vm # {} \/ fts \/ pm # 0
             /\ {key[i] : i \in 1..Len(key)} \cap vm = {}
             /\ pm # 0 => HasText(s)
             /\ pm \in {2, 3} => Len(key) = 2
             /\ (Deep = 0 /\ st.n = 4) => (x + k1 + k2 + pm + Cardinality(vm)) % 4 = (IF fts THEN 1 ELSE 2)
             /\ st' = s
  \/ /\ st.ph = "pfx0"
     /\ \E len \in PLensOf(st.ty), k \in 1..Len(PKeys), fmt \in {"C", "R"} :
          /\ Deep = 1 \/ (len + k) % 2 = 0 \/ len \in {255, 256}
          /\ st' = [ph |-> "pfx", ty |-> st.ty, len |-> len, k |-> k, fmt |-> fmt]
  \/ /\ st.ph = "hidbig0"
     /\ \E x \in 1..(IF Deep = 1 THEN 12 ELSE 4) :
          LET key == RandKey(st.n, x % 4, Seed * 37 + x * 11 + st.n)
          IN st' = [st EXCEPT !.ph = "hidden", !.rot = (x + st.n) % 16, !.key = key, !.fts = (x % 3 = 0), !.pm = 0,
                              !.vm = {j \in 1..st.n : ~Contains(key, j) /\ R(Seed + x, j + st.n, 1 + x) = 0}]
  \/ /\ st.ph = "size"
     /\ \E b \in Bigs, x \in 1..(IF Deep = 1 THEN 12 ELSE 3) :
           st' = [ph |-> "big", n |-> b[1], rot |-> (b[1] + x) % 16, key |-> RandKey(b[1], b[2], Seed * 31 + x * 7 + b[1] + b[2])]

\* Secondary indexes on columns in other orders, one of them unique.
Secs(s) == << [id |-> U8(400), name |-> Str("ix"), key |-> Reverse([j \in 1..s.n |-> j]), uniq |-> FALSE],
              [id |-> U8(401), name |-> Str("AA"), key |-> <<s.n>>, uniq |-> TRUE] >>
TabOf(s) ==
  LET t == TabS([j \in 1..s.n |-> ColAt(s, j)], s.key)
      \* without PRIMARY KEY the first unique index of NOT NULL columns is the clustered one
      named == s.key # <<>> /\ (Len(s.key) + s.rot) % 3 = 0
  IN [t EXCEPT !.keyname = IF named THEN UniqName(s.n + s.rot + 3 * s.key[1]) ELSE @, !.sec = IF s.n <= 16 /\ (s.n + s.rot) % 2 = 0 THEN Secs(s) ELSE <<>>]
\* Another table with the same columns in another order.
Decoy(s) == LET cs == Reverse([j \in 1..s.n |-> ColAt(s, j)])
            IN [Tab(39, 22, DB, Str("s"), cs, <<1>>) EXCEPT !.db = IF s.rot % 2 = 0 THEN DB ELSE Str("shop2"), !.name = IF s.rot % 2 = 0 THEN Str("t2") ELSE TB]

KeyText(k) == FoldLeft(LAMBDA a, j : a \o "." \o ToString(j), "", k)
Name(s) == "C04-" \o s.ph \o "-" \o ToString(s.n) \o "-" \o ToString(s.rot) \o "-" \o KeyText(s.key)
           \o (IF s.ph # "hidden" THEN "" ELSE "-" \o (IF s.n > 8 THEN ToString(s.fts) ELSE KeyText(SetToSeq(s.vm))) \o (IF s.fts THEN "f" ELSE "-") \o ToString(s.pm))
CaseFmt(s, fmt) ==
  LET t == IF s.ph = "hidden" THEN HidTab(s) ELSE TabOf(s)
      rows == [r \in 1..NRows |-> IF s.ph = "hidden" THEN HidRow(s, r) ELSE RowAt(s, r)]
      few == s.n <= 20
  IN [id |-> Name(s) \o "-" \o fmt, d |-> "columns and keys " \o Name(s),
      files |-> <<DictFileOf(IF few THEN (IF s.rot % 3 = 0 THEN <<t, Decoy(s)>> ELSE <<Decoy(s), t>>) ELSE <<t>>, Seed),
                  TabFileOf(t, RowsPages(t, 3, fmt, rows, Seed), Seed)>>,
      runs |-> <<DataRun("ibdata1", "t.ibd", t, Live, [r \in 1..NRows |-> Replace(t, rows[r])])>>]
Waits == st.ph \in {"size", "hidden0", "hidbig0", "pfx0"}
Emit == IF st.ph = "pfx" THEN EmitCase(PfxLenCase(st)) ELSE ~Waits => EmitCase(CaseFmt(st, "C")) /\ EmitCase(CaseFmt(st, "R"))

\* The physical order is a permutation: every column is stored exactly once.
\* (A virtual one is not, and one of whose prefix is in the key also is.)
Permutation == (~Waits /\ st.ph # "pfx") =>
  LET pc == PhysCols(IF st.ph = "hidden" THEN HidTab(st) ELSE TabOf(st))
  IN \A j \in 1..st.n : Cardinality({i \in 1..Len(pc) : pc[i] = j}) = IF st.ph = "hidden" /\ j \in st.vm THEN 0 ELSE 1
=============================================================================
