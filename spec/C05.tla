-------------------------------- MODULE C05 --------------------------------
(***************************************************************************)
(* C05: the physical arrangement of the dictionary does not matter.        *)
(*                                                                         *)
(* The abstract state of the dictionary is a set of table definitions with *)
(* the rows of SYS_TABLES, SYS_COLUMNS, SYS_INDEXES and SYS_FIELDS,        *)
(* including delete-marked rows of renamed, dropped and re-created tables. *)
(* A state of this model additionally has the shape of the four trees      *)
(* (rows per leaf, fanout), the numbering of the pages, and what else is   *)
(* in the file: undo and other pages, other indexes' pages, and old copies *)
(* of dictionary pages in the doublewrite buffer.                          *)
(***************************************************************************)
EXTENDS Redo

(***************************************************************************)
(* Table definitions.                                                      *)
(***************************************************************************)
Dbs == <<"shop", "shop2", "a", "zoo">>
ColNames == <<"id", "a", "b", "name", "value", "c_1", "c_2", "d", "e", "f", "g", "h", "i", "j">>
ColOf(sd, j, inkey) ==
  LET n == IF j <= Len(ColNames) THEN Str(ColNames[j]) ELSE Str("c") \o Dig(j, 2)  r == R(sd, 40 + j, 6)  nn == inkey \/ R(sd, 80 + j, 2) = 0
  IN CASE r = 0 -> Col(n, "varchar", 30, nn) [] r = 1 -> Col(n, "varchar", 300, nn) [] r = 2 -> Col(n, "char", 8, nn)
       [] r = 3 -> UCol(n, "int", 2, nn) [] r = 4 -> Col(n, "datetime", 0, nn) [] OTHER -> Col(n, "int", 4, nn)
ValOf(c, i, j, r) ==
  IF ~c.nn /\ (i + j + r) % 5 = 0 THEN Null
  ELSE CASE c.k = "virtual" -> W(U4(j))
         [] c.k = "ftsdoc" -> W(U8(9000 + i * 10 + r))
         [] c.k = "varchar" -> S(Str("t") \o Dig(i, 3) \o Str("c") \o Dig(j, 2) \o Str("r") \o Dig(r, 1))
         [] c.k = "char" -> S(Dig(i, 3) \o Dig(j, 2) \o Dig(r, 1))
         [] c.k = "int" -> W(UW((i % 20) * 1000 + j * 10 + r, c.w))
         [] c.k = "datetime" -> T(<<2000 + (i % 20), 1 + (j % 12), 1 + r, 12, i % 60, 0, 0>>)
RandKey(n, k, sd) ==
  LET step(acc, i) == LET free == SelectSeq([j \in 1..n |-> j], LAMBDA j : ~Contains(acc, j))
                      IN Append(acc, free[1 + R(sd, 120 + i, Len(free))])
  IN FoldLeft(step, <<>>, [i \in 1..k |-> i])

\* Ids: a base word plus a number.
IdWord(base, n) == CASE base = 0 -> U8(n)
                     [] base = 1 -> <<0, 0, 0, 0, 127, 255>> \o U2(30000 + n)     \* around 2^31
                     [] base = 2 -> <<0, 0, 0, 0, 255, 255>> \o U2(30000 + n)     \* around 2^32
                     [] base = 3 -> <<0, 0, 1, 2>> \o U4(n)
                     [] base = 5 -> U8(n)                                            \* with a table of many columns
                     [] base = 4 -> U4((n \div 4) - 13) \o U4(5 + (n % 4))             \* ids which differ in the upper half only
\* Names of secondary indexes: one still being built starts with 0xff.
SecName(r, x) == CASE r = 0 -> <<255>> \o Str("ix_") \o Dig(x, 1) [] r = 1 -> Str("PRIMARY_") \o Dig(x, 1) [] r = 2 -> Str("GEN_CLUST_INDEX") \o Dig(x, 1)
                   [] r = 3 -> Rep(99, 62) \o Dig(x, 1) [] r = 4 -> Str("a b/c") \o <<39>> \o Dig(x, 1) [] OTHER -> Str("ix_") \o Dig(x, 1)
MkTab(i, s) ==
  LET sd == Seed * 1009 + s.x * 101 + i
      nc == IF s.base = 5 /\ i = 1 THEN 280 ELSE 1 + R(sd, 1, IF s.nt > 50 THEN 6 ELSE 13)
      nk == Min2(R(sd, 2, 4), nc)
      key == RandKey(nc, nk, sd)
      virt == R(sd, 31, 4) = 0 /\ nk < nc
      fts == R(sd, 32, 5) = 0
      stored == [j \in 1..nc |-> IF virt /\ ~Contains(key, j) /\ R(sd, 200 + j, 3) = 0 THEN VirtCol(ColOf(sd, j, FALSE).n, 1 + R(sd, 230 + j, 2)) ELSE ColOf(sd, j, Contains(key, j))]
      cols == Eval(stored \o (IF fts THEN <<FtsCol>> ELSE <<>>))
      pfx == [k \in 1..nk |-> IF cols[key[k]].k = "varchar" THEN 20 ELSE IF cols[key[k]].k = "char" THEN 7 ELSE 0]
      nsec == R(sd, 3, 3)
  IN [id |-> IdWord(s.base, 50 + 3 * i), space |-> U4(20 + i), db |-> Str(Dbs[1 + (i % 4)]), name |-> Str("t") \o Dig(i \div 4, 1),
      cols |-> cols, key |-> key,
      keyname |-> IF key = <<>> THEN Str("GEN_CLUST_INDEX") ELSE IF R(sd, 4, 4) = 0 THEN Str("uniq_") \o cols[key[1]].n ELSE Primary,
      \* index ids rise within a table, in an order of their own across tables
      idx |-> IdWord(s.base, 1000 + 4 * ((i * 37) % 2003)),
      sec |-> [x \in 1..nsec |-> [id |-> IdWord(s.base, 1000 + 4 * ((i * 37) % 2003) + x), name |-> SecName(R(sd, 50 + x, 7), x),
                                  key |-> RandKey(nc, 1 + R(sd, 6 + x, Min2(nc, 3)), sd + x), uniq |-> R(sd, 10 + x, 2) = 0,
                                  prefix |-> R(sd, 14 + x, 2) = 0, dropped |-> s.ghosts /\ R(sd, 18 + x, 2) = 0]]
                \o (IF fts THEN <<[id |-> IdWord(s.base, 1003 + 4 * ((i * 37) % 2003)), name |-> Str("FTS_DOC_ID_INDEX"), key |-> <<nc + 1>>, uniq |-> TRUE,
                                    prefix |-> FALSE, dropped |-> FALSE]>> ELSE <<>>)]
     @@ (IF virt THEN [virt |-> TRUE] ELSE <<>>)
     @@ (IF R(sd, 33, 3) = 0 /\ nk > 0 THEN [pfx |-> pfx] ELSE <<>>)
Tables(s) == Eval([i \in 1..s.nt |-> MkTab(i, s)])

(***************************************************************************)
(* Dictionary rows [f: fields, del], in key order.                         *)
(***************************************************************************)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
Dr(f) == [f |-> f, del |-> FALSE]
Dd(f) == [f |-> f, del |-> TRUE]
Key1(r) == r.f[1][2][2]
Key12(r) == r.f[1][2][2] \o r.f[2][2][2]
SortBy1(rs) == SortSeq(rs, LAMBDA a, b : LexLess(Key1(a), Key1(b), 1))
SortBy12(rs) == SortSeq(rs, LAMBDA a, b : LexLess(Key12(a), Key12(b), 1))

\* Renamed tables have a delete-marked row under their old name.
OldName(t, i) == [t EXCEPT !.name = (IF i % 2 = 0 THEN Str("#sql-") \o @ ELSE @ \o Str("_old")), !.db = IF i % 3 = 0 THEN Str("b") ELSE @]
\* The former incarnation of a table which was dropped and created again.
Former(t0) == LET t == [f \in DOMAIN t0 \ {"virt"} |-> t0[f]] IN [t EXCEPT !.id = SubSeq(@, 1, 6) \o U2(D2(@, 7) - 1), !.idx = SubSeq(@, 1, 6) \o U2(D2(@, 7) + 3),
                       !.cols = Reverse(SelectSeq(@, LAMBDA c : c.k \notin {"virtual", "ftsdoc"})), !.key = IF @ = <<>> THEN <<>> ELSE <<1>>, !.sec = <<>>]
\* A table which was dropped: everything of it is delete-marked.
Dropped(s) == [MkTab(s.nt + 1, s) EXCEPT !.sec = <<>>]

\* Columns which were dropped from a table in place, or which moved: virtual
\* ones, whose position is in the lower half, and one behind the last one.
GoneCols(t, i) ==
  LET n == Len(t.cols)
      row(c, pos) == LET r == SysColumnsRow([t EXCEPT !.cols = <<c>>], 1, i) IN [r EXCEPT ![2] = DField(pos)]
      nv == IF HasVirt(t) THEN NVirt(t, n) ELSE 0
  IN (IF i % 2 = 0 \/ HasVirt(t) THEN << Dd(row(VirtCol(Str("gone_v"), 1 + (i % 2)), U2(nv + 1) \o U2(i % (n + 1)))), Dd(row(VirtCol(Str("gone_w"), 1), U2(nv + 2) \o U2(0))) >> ELSE <<>>)
     \o (IF i % 3 # 0 THEN << Dd(row(Col(Str("gone_s"), "varchar", 40, i % 2 = 0), U4(n))), Dd(row(Col(t.cols[1].n, "int", 4, TRUE), U4(n + 1))) >> ELSE <<>>)

IsRenamed(s, i) == s.ghosts /\ i % 3 = 1
IsRecreated(s, i) == s.ghosts /\ i % 3 = 2

RowsTables(s, ts) ==
  SortBy1([i \in 1..Len(ts) |-> Dr(SysTablesRow(ts[i], i))]
          \o Cat([i \in 1..Len(ts) |-> IF IsRenamed(s, i) THEN <<Dd(SysTablesRow(OldName(ts[i], i), i))>> ELSE <<>>])
          \o (IF s.ghosts THEN <<Dd(SysTablesRow(Dropped(s), 3))>> ELSE <<>>))
ColRows(t, salt) == LET o == ColOrder(t) IN [j \in 1..Len(o) |-> SysColumnsRow(t, o[j], salt)]
AllDd(fs) == [i \in 1..Len(fs) |-> Dd(fs[i])]
AllDr(fs) == [i \in 1..Len(fs) |-> Dr(fs[i])]
RowsColumns(s, ts) ==
  SortBy12(Cat([i \in 1..Len(ts) |-> AllDr(ColRows(ts[i], i)) \o (IF s.ghosts THEN GoneCols(ts[i], i) ELSE <<>>) \o (IF IsRecreated(s, i) THEN AllDd(ColRows(Former(ts[i]), i)) ELSE <<>>)])
           \o (IF s.ghosts THEN AllDd(ColRows(Dropped(s), 1)) ELSE <<>>))
\* Rows of before an upgrade lack the last column.
Wide10(t, salt) == salt % 3 # 0
ClustRow(t, salt) == SysIndexesRow(t, t.idx, t.keyname, Len(t.key), ClustType(t), Wide10(t, salt), salt)
SecRow(t, x, salt) == SysIndexesRow(t, t.sec[x].id, t.sec[x].name, Len(t.sec[x].key), SecType(t.sec[x]), Wide10(t, salt), salt)
RowsIndexes(s, ts) ==
  SortBy12(Cat([i \in 1..Len(ts) |->
                 <<Dr(ClustRow(ts[i], i))>>
                 \o [x \in 1..Len(ts[i].sec) |-> [f |-> SecRow(ts[i], x, i), del |-> ts[i].sec[x].dropped]]
                 \o (IF IsRecreated(s, i) THEN <<Dd(ClustRow(Former(ts[i]), i))>> ELSE <<>>)])
           \o (IF s.ghosts THEN <<Dd(ClustRow(Dropped(s), 2))>> ELSE <<>>))
KeyRows(t, salt) == [j \in 1..Len(t.key) |-> ClustFieldsRow(t, j, salt)]
\* With a column prefix the position is in the upper half of POS.
SecFields(t, x, salt) ==
  [j \in 1..Len(t.sec[x].key) |->
     <<DField(t.sec[x].id), DField(IF t.sec[x].prefix THEN U2(j - 1) \o U2(5) ELSE U4(j - 1))>> \o DTrx(salt)
     \o <<DField(t.cols[t.sec[x].key[j]].n)>>]
RowsFields(s, ts) ==
  SortBy12(Cat([i \in 1..Len(ts) |->
                 AllDr(KeyRows(ts[i], i))
                 \o Cat([x \in 1..Len(ts[i].sec) |-> LET fs == SecFields(ts[i], x, i) IN IF ts[i].sec[x].dropped THEN AllDd(fs) ELSE AllDr(fs)])
                 \o (IF IsRecreated(s, i) THEN AllDd(KeyRows(Former(ts[i]), i)) ELSE <<>>)])
           \o (IF s.ghosts THEN AllDd(KeyRows(Dropped(s), 2)) ELSE <<>>))

(***************************************************************************)
(* Trees: a sequence of nodes [lvl, rows, kids]; kids are positions in the *)
(* sequence, the root is the last node.                                    *)
(***************************************************************************)
Chunks(seq, n) == [j \in 1..Max2(1, (Len(seq) + n - 1) \div n) |-> SubSeq(seq, (j - 1) * n + 1, Min2(j * n, Len(seq)))]
FirstRow(nodes, k) == nodes[k].first
RECURSIVE Grow(_, _, _, _)
\* nodes so far; the positions of the topmost level
Grow(nodes, top, lvl, fan) ==
  IF Len(top) = 1 THEN nodes
  ELSE LET gs == Chunks(top, fan)
           new == [g \in 1..Len(gs) |-> [lvl |-> lvl, rows |-> <<>>, kids |-> gs[g], first |-> nodes[gs[g][1]].first]]
       IN Grow(nodes \o new, [g \in 1..Len(gs) |-> Len(nodes) + g], lvl + 1, fan)
\* A root may stay an internal page after its leaves have been merged.
Tree(rows, per, fan, tall) ==
  LET ls == Chunks(rows, per)
      leaves == [j \in 1..Len(ls) |-> [lvl |-> 0, rows |-> ls[j], kids |-> <<>>, first |-> IF ls[j] = <<>> THEN <<>> ELSE ls[j][1].f]]
      grown == Grow(leaves, [j \in 1..Len(ls) |-> j], 1, fan)
  IN IF tall /\ rows # <<>> THEN Append(grown, [lvl |-> grown[Len(grown)].lvl + 1, rows |-> <<>>, kids |-> <<Len(grown)>>, first |-> grown[Len(grown)].first])
     ELSE grown

\* The records of a page in heap order: the record list visits them in key order.
Shuffle(n, salt) == LET k == CHOOSE k \in <<7, 11, 13, 17>>[1 + (salt % 4)]..200 : \A d \in 2..k : ~(k % d = 0 /\ n % d = 0)
                    IN [i \in 1..n |-> 1 + (((i - 1) * k + salt) % n)]
NodePage(tree, k, index, no, numOf, mixed, salt) ==
  LET nd == tree[k]
      recs == IF nd.lvl = 0 THEN [i \in 1..Len(nd.rows) |-> Rec(nd.rows[i].f, "R", nd.rows[i].del)]
              ELSE [i \in 1..Len(nd.kids) |-> Rec(SubSeq(tree[nd.kids[i]].first, 1, 2) \o <<DField(U4(numOf[nd.kids[i]]))>>, "R", FALSE)]
      n == Len(recs)
      place == IF mixed /\ n > 0 THEN Shuffle(n, salt) ELSE [i \in 1..n |-> i]
      \* slot of a record in list order; heap order is its inverse
      at == [j \in 1..n |-> CHOOSE i \in 1..n : place[i] = j]
      \* a purged record stands at the end of the heap
      purged == IF mixed /\ n > 0 /\ salt % 2 = 0 THEN <<MkSlot(recs[n], "R")>> ELSE <<>>
  IN [no |-> no, space |-> Zeros(4), fmt |-> "R", level |-> nd.lvl, index |-> U8(index), maxtrx |-> Zeros(8),
      slots |-> [j \in 1..n |-> MkSlot(recs[at[j]], "R")] \o purged,
      nb |-> LET num(x) == IF x = 0 \/ x > Len(tree) THEN NoPage ELSE IF tree[x].lvl # nd.lvl THEN NoPage ELSE U4(numOf[x]) IN <<num(k - 1), num(k + 1)>>,
      live |-> place, free |-> IF purged = <<>> THEN <<>> ELSE <<n + 1>>, salt |-> salt]

(***************************************************************************)
(* The file.                                                               *)
(***************************************************************************)
Indexes4 == <<1, 2, 3, 4>>
Trees(s) == LET ts == Tables(s)
            IN << Tree(RowsTables(s, ts), s.per, s.fan, s.tall), Tree(RowsColumns(s, ts), s.per, s.fan, FALSE),
                  Tree(RowsIndexes(s, ts), s.per, s.fan, s.tall), Tree(RowsFields(s, ts), s.per, s.fan, FALSE) >>

\* A permutation of 1..n (position -> item).
RandPerm(n, salt) ==
  FoldLeft(LAMBDA p, i : LET j == i + R(salt, 300 + i, n - i + 1) IN [p EXCEPT ![i] = p[j], ![j] = p[i]],
           [i \in 1..n |-> i], [i \in 1..n |-> i])

File(s) ==
  LET trees == Trees(s)
      sizes == [x \in 1..4 |-> Len(trees[x])]
      n == sizes[1] + sizes[2] + sizes[3] + sizes[4]
      gaps == IF s.extra THEN 4 + (n \div 2) ELSE 3
      \* items 1..n are the nodes of the trees, n+1.. other pages
      base == <<0, sizes[1], sizes[1] + sizes[2], sizes[1] + sizes[2] + sizes[3]>>
      roots == [x \in 1..4 |-> base[x] + sizes[x]]
      nonroots == SelectSeq([i \in 1..(n + gaps) |-> i], LAMBDA i : ~Contains(roots, i))
      \* the order of the items in the file from page 8 on
      order == IF s.order = "standard"
               THEN <<roots[1], n + 1, roots[2], roots[3], roots[4]>> \o SelectSeq(nonroots, LAMBDA i : i # n + 1)
               ELSE LET p == RandPerm(n + gaps, Seed + s.x) IN p
      \* the pages follow one another, or stand far apart
      place(i) == IF s.step = 1 THEN 7 + i ELSE 8 + ((i - 1) * s.step) + R(s.x, 40 + i, s.step)
      noOf == FoldLeft(LAMBDA f, i : [f EXCEPT ![order[i]] = place(i)], [i \in 1..(n + gaps) |-> 0], [i \in 1..(n + gaps) |-> i])
      tr(i) == IF i <= base[2] THEN 1 ELSE IF i <= base[3] THEN 2 ELSE IF i <= base[4] THEN 3 ELSE 4
      page(i, no) == LET x == tr(i)
                         numOf == [k \in 1..sizes[x] |-> noOf[base[x] + k]]
                     IN NodePage(trees[x], i - base[x], x, no, numOf, s.mixed, Seed + i)
      ts == Tables(s)
      \* An old version of a dictionary page, at another place of the file.
      copy(g) == LET i == 1 + R(Seed + s.x, 500 + g, n)
                     p == page(i, noOf[i])
                     old == IF g % 2 = 0 THEN p
                            ELSE [p EXCEPT !.live = SubSeq(Reverse(@), 1, (Len(@) + 1) \div 2)]
                 IN PageChunks([old EXCEPT !.free = <<>>])
      \* SYS_TABLES' second index, another table's, or one whose number differs
      \* from a dictionary index' in the upper bytes only.  Its rows look like
      \* rows of the dictionary.
      stray(g, no) ==
        LET v == R(Seed + 7 * s.x + s.nt + s.per, 520 + g, 8)
            x == 1 + R(Seed + s.x + s.nt, 540 + g, 4)
            old == [ts[1] EXCEPT !.name = Str("stray"), !.db = Str("b")]
            rows == CASE v < 2 \/ x = 1 -> <<SysTablesRow(ts[1], 1), SysTablesRow(OldName(ts[1], 1), 1), SysTablesRow(old, 2)>>
                      [] x = 2 -> <<SysColumnsRow([ts[1] EXCEPT !.cols = <<Col(Str("stray"), "int", 4, FALSE)>>], 1, 1)>>
                      [] x = 3 -> <<SysIndexesRow(ts[1], ts[1].idx, Str("stray"), Len(ts[1].key) + 1, ClustType(ts[1]), TRUE, 1)>>
                      [] OTHER -> << <<DField(ts[1].idx), DField(U4(0))>> \o DTrx(g) \o <<DField(Str("stray"))>> >>
            id == CASE v = 0 -> U8(5) [] v = 1 -> U8(11 + g) [] v = 2 -> U8(256 + x) [] v = 3 -> U8(65536 + x) [] v = 4 -> U8(16777216 * (1 + (g % 5)) + x)
                    [] v = 5 -> U4(1) \o U4(x) [] v = 6 -> U8(256 * (1 + (s.x % 200)) + x) [] OTHER -> <<x, 0, 0, 0, 0, 0, 0, x>>
        IN PageChunks([DictPage(no, 5, 0, rows, g) EXCEPT !.maxtrx = IF g % 2 = 0 THEN Zeros(8) ELSE IF v < 2 THEN U8(5) ELSE Zeros(8), !.index = id])
      other(g, no) ==
        IF ~s.extra THEN Filler(no, g)
        ELSE CASE g % 8 = 1 -> Filler(no, g)
               [] g % 8 = 2 -> copy(g)
               [] g % 8 = 3 -> stray(g, no)
               [] g % 8 = 4 -> copy(g)
               [] g % 8 = 6 -> <<>>                               \* a page of zeros
               [] g % 8 = 7 -> \* a copy of another tablespace's page
                  PageChunks([RowsPage(ts[1], 8 + (g % (n + gaps)), "C", <<>>, g) EXCEPT !.space = U4(23)])
               [] OTHER -> copy(g)
      \* a page of another type may look like a dictionary page behind its header
      body(g, no) == LET c == PageChunks(page(1 + (g % n), no))[1][2]
                     IN OtherPage(no, Zeros(4), <<0, 2, 3, 4, 10, 7, 11, 12>>[1 + (R(Seed, g, 8))], SubSeq(c, 39, Len(c)), g)
      at(i) == LET it == order[i]  no == place(i)
               IN IF it <= n THEN PageChunks(page(it, no))
                  ELSE IF s.extra /\ (it - n) % 8 = 5 THEN body(it - n, no) ELSE other(it - n, no)
      hdr == DictHeader(<<noOf[roots[1]], noOf[roots[2]], noOf[roots[3]], noOf[roots[4]]>>, Seed)
  IN [np |-> place(n + gaps) + 1,
      c |-> FileChunks([i \in 1..7 |-> Filler(i - 1, Seed + i)] \o <<hdr>>)
            \o Cat([i \in 1..(n + gaps) |-> LET c == at(i) IN [j \in 1..Len(c) |-> <<place(i), c[j][1], c[j][2]>>]])]

(***************************************************************************)
(* The state machine: choose the dictionary, then its arrangement.         *)
(***************************************************************************)
VARIABLE st
Init == st \in [ph : {"dict"}, nt : {1, 2, 3, 5, 9, 30} \cup (IF Deep = 1 THEN {14, 60, 100} ELSE {70}), base : 0..5, ghosts : BOOLEAN]
        \cup [ph : {"many"}, nt : {300} \cup (IF Deep = 1 THEN {1100} ELSE {}), base : {0}, ghosts : {TRUE}]
        \cup [ph : {"far"}, nt : {2, 12}, base : {0, 2}, ghosts : {TRUE}]
Next ==
  \/ /\ st.ph = "far"
     /\ \E per \in {3, 10}, step \in {2, 7, 64, 300, 2000, 9000} :
           /\ (Deep = 0) => (step < 100 \/ (step \in {300, 9000} /\ st.nt = 2 /\ per = 10))
           /\ st' = [ph |-> "case", nt |-> st.nt, base |-> st.base, ghosts |-> TRUE, per |-> per, fan |-> 5, order |-> "random",
                  extra |-> TRUE, mixed |-> TRUE, tall |-> step = 7, x |-> step + per + st.nt, step |-> step]
  \/ /\ st.ph = "many"
     /\ \E per \in {10, 40}, fan \in {10, 100}, order \in {"standard", "random"} :
           /\ (Deep = 0) => <<per, fan, order>> \in {<<10, 10, "random">>, <<40, 100, "standard">>}
           /\ st' = [ph |-> "case", nt |-> st.nt, base |-> 0, ghosts |-> TRUE, per |-> per, fan |-> fan, order |-> order,
                  extra |-> fan = 10, mixed |-> fan = 10, tall |-> FALSE, x |-> per + fan, step |-> 1]
  \/ /\ st.ph = "dict"
     /\ \E per \in {1, 3, 10, 60}, fan \in {2, 5, 50}, order \in {"standard", "random"}, extra \in BOOLEAN, mixed \in BOOLEAN, tall \in BOOLEAN,
           x \in 1..(IF Deep = 1 /\ st.nt <= 14 THEN 2 ELSE 1) :
           /\ (st.nt >= 60 /\ st.base > 0) => (extra /\ mixed /\ fan = 5)
           /\ (per = 1) => st.nt <= 3
           /\ (per = 3) => st.nt <= 14
           /\ (fan = 50) => ~tall
           /\ (fan = 2) => (per < 60)
           /\ (st.base = 5) => (st.nt <= 3 /\ per >= 10)
           /\ (Deep = 0) => /\ tall = (st.nt % 2 = 1 /\ fan = 5)
                            /\ (order = "standard") => (mixed = extra)
                            /\ (st.base > 0 /\ st.nt > 9) => (extra /\ mixed /\ fan = 5)
                            /\ (st.base > 0) => (mixed = extra /\ (st.base # 2 => order = "random"))
                            /\ (st.nt >= 30) => (fan = 5)
           /\ st' = [ph |-> "case", nt |-> st.nt, base |-> st.base, ghosts |-> st.ghosts, per |-> per, fan |-> fan, order |-> order,
                     extra |-> extra, mixed |-> mixed, tall |-> tall, x |-> x * 17 + per + fan + st.nt, step |-> 1]

\* The tables which are read: all of a few, some of many.
Sample(s) == IF s.nt <= 9 THEN [i \in 1..s.nt |-> i] ELSE <<1, 2, 3, s.nt \div 3, s.nt \div 2, s.nt - 2, s.nt - 1, s.nt>>
B(b) == IF b THEN "y" ELSE "n"
Name(s) == "C05-" \o ToString(s.nt) \o "-" \o ToString(s.base) \o B(s.ghosts) \o "-" \o ToString(s.per) \o "-" \o ToString(s.fan)
           \o "-" \o s.order \o B(s.extra) \o B(s.mixed) \o B(s.tall) \o "-" \o ToString(s.x) \o (IF s.step > 1 THEN "-" \o ToString(s.step) ELSE "")
\* Updates of all tables with a key and another column.
RowUpdatesOf(ts, sm, rows(_)) ==
  Cat([k \in 1..Len(sm) |-> IF ts[sm[k]].key = <<>> \/ RestOf(ts[sm[k]]) = <<>> THEN <<>>
                            ELSE RowUpdates(ts[sm[k]], "C", rows(sm[k]))])
Case(s) ==
  LET f == File(s)
      ts == Tables(s)
      sm == Sample(s)
      rows(i) == [r \in 1..3 |-> [j \in 1..Len(ts[i].cols) |-> ValOf(ts[i].cols[j], i, j, r)]]
      fn(i) == "t" \o ToString(i) \o ".ibd"
      upd == RowUpdatesOf(ts, sm, rows)
  IN [id |-> Name(s), d |-> "arrangement of the dictionary " \o Name(s),
      files |-> <<FilePages("ibdata1", f.np, f.c)>>
                \o [k \in 1..Len(sm) |-> FilePages(fn(sm[k]), 4, TabFile(ts[sm[k]], <<RowsPage(ts[sm[k]], 3, IF sm[k] % 2 = 0 THEN "C" ELSE "R", rows(sm[k]), Seed)>>, Seed))]
                \o <<LogFile("log0", upd, s.x)>>,
      runs |-> [k \in 1..Len(sm) |-> DataRun("ibdata1", fn(sm[k]), ts[sm[k]], Live, [r \in 1..3 |-> Replace(ts[sm[k]], rows(sm[k])[r])])]
              \o <<RedoAll("ibdata1", "log0", ExpOf(upd))>>]
Emit == st.ph = "case" => EmitCase(Case(st))

(***************************************************************************)
(* The trees store every row exactly once, in key order.                   *)
(***************************************************************************)
TreeOk(rows, t) ==
  LET leaves == SelectSeq([k \in 1..Len(t) |-> k], LAMBDA k : t[k].lvl = 0)
  IN /\ Cat([k \in 1..Len(leaves) |-> t[leaves[k]].rows]) = rows
     /\ \A k \in 1..Len(t) : \A c \in 1..Len(t[k].kids) : t[t[k].kids[c]].lvl = t[k].lvl - 1
     /\ \A k \in 1..(Len(t) - 1) : Cardinality({m \in 1..Len(t) : Contains(t[m].kids, k)}) = 1
TreesOk == st.ph = "case" /\ st.nt <= 100 =>
  LET ts == Tables(st)  tr == Trees(st)
  IN /\ TreeOk(RowsTables(st, ts), tr[1]) /\ TreeOk(RowsColumns(st, ts), tr[2])
     /\ TreeOk(RowsIndexes(st, ts), tr[3]) /\ TreeOk(RowsFields(st, ts), tr[4])
=============================================================================
