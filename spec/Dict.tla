-------------------------------- MODULE Dict --------------------------------
(***************************************************************************)
(* Table definitions and the data dictionary in the system tablespace.     *)
(*                                                                         *)
(* A table is a record                                                     *)
(*   id, space   8 and 4 byte words                                        *)
(*   db, name    byte strings                                              *)
(*   cols        the columns in declared order                             *)
(*   key         the clustered key: indexes of columns in key order, <<>>  *)
(*               for a table without a key                                 *)
(*   keyname     name of the clustered index                               *)
(*   idx         id of the clustered index (8 byte word)                   *)
(*   sec         secondary indexes: [id, name, key, uniq]                  *)
(*               optionally their type and root page                       *)
(*   pfx         optional: how many bytes of its column a field of the key  *)
(*               has, 0 for the whole column                               *)
(*   virt        optional: the table has virtual columns                   *)
(***************************************************************************)
EXTENDS Page

Primary == Str("PRIMARY")
\* Names of a clustered index which is a unique index of NOT NULL columns.
UniqNames == <<Str("a_unique"), Str("GEN_uk"), Str("GEN_CLUST_INDEX1"), Str("GEN_CLUST_INDE"), Str("PRIMAR"), Str("CLUST_INDEX"), Str("id"), Str("FTS_INDEX"), Str("0"), Str("DB_ROW_ID")>>
UniqName(n) == UniqNames[1 + (n % Len(UniqNames))]

Tab(id, space, db, name, cols, key) ==
  [id |-> U8(id), space |-> U4(space), db |-> db, name |-> name, cols |-> cols, key |-> key,
   keyname |-> IF key = <<>> THEN Str("GEN_CLUST_INDEX") ELSE Primary, idx |-> U8(id + 100),
   sec |-> <<>>]

(***************************************************************************)
(* The physical order of a row's fields: the key, the system columns, the  *)
(* other columns.  A row is a function from column indexes to values.      *)
(***************************************************************************)
HasVirt(t) == "virt" \in DOMAIN t
IsVirt(t, j) == t.cols[j].k = "virtual"
PfxOf(t, i) == IF "pfx" \in DOMAIN t THEN t.pfx[i] ELSE 0
HasPfx(t) == "pfx" \in DOMAIN t /\ \E i \in 1..Len(t.key) : t.pfx[i] > 0
\* The columns whose whole value is in the key.
WholeKey(t) == IF HasPfx(t) THEN SelectSeq([i \in 1..Len(t.key) |-> IF t.pfx[i] > 0 THEN 0 ELSE t.key[i]], LAMBDA j : j > 0) ELSE t.key
PhysCols(t) ==
  LET whole == Eval(WholeKey(t))
      virt == HasVirt(t)
  IN [i \in 1..Len(t.key) |-> IF PfxOf(t, i) > 0 THEN -100 - i ELSE t.key[i]] \o
     (IF t.key = <<>> THEN <<-3>> ELSE <<>>) \o <<-2, -1>> \o
     SelectSeq([i \in 1..Len(t.cols) |-> i], LAMBDA i : ~Contains(whole, i) /\ ~(virt /\ IsVirt(t, i)))

\* The i-th field of the key, a prefix.  Of a fixed length column it has a
\* fixed length; of characters with several bytes it has as many characters
\* (the texts of such keys have only characters of one byte).
PfxColOf(t, i) ==
  LET c == t.cols[t.key[i]]
  IN PfxField(c.n, IF c.k \in {"char", "binary"} THEN Min2(c.w, t.pfx[i]) ELSE 0, IF IsLongVar(c) THEN 2 ELSE 1)
PfxBytes(t, i, v) ==
  LET c == t.cols[t.key[i]]
      n == IF c.k \in {"charmb", "varcharmb"} THEN t.pfx[i] \div c.mb ELSE t.pfx[i]
      b == CASE c.k \in {"char", "charmb"} -> PadTo(v[2], Min2(c.w, n)) [] c.k = "binary" -> v[2] \o Zeros(c.w - Len(v[2])) [] OTHER -> v[2]
  IN SubSeq(b, 1, Min2(Len(b), n))

PhysCol(t, i) == CASE i = -3 -> SysCol(Str("DB_ROW_ID"), 6)
                   [] i = -2 -> SysCol(Str("DB_TRX_ID"), 6)
                   [] i = -1 -> SysCol(Str("DB_ROLL_PTR"), 7)
                   [] i <= -100 -> PfxColOf(t, -100 - i)
                   [] OTHER -> t.cols[i]

\* salt: seed of the system columns' values.
Phys(t, row, salt) ==
  LET pc == PhysCols(t)
  IN Eval([j \in 1..Len(pc) |->
       << PhysCol(t, pc[j]),
          CASE pc[j] > 0 -> row[pc[j]]
            [] pc[j] <= -100 -> S(PfxBytes(t, -100 - pc[j], row[t.key[-100 - pc[j]]]))
            [] pc[j] = -1 -> W(<<(salt % 2) * 128>> \o Noise(salt, 11, 6))
            [] OTHER -> W(Zeros(2) \o Noise(salt, 20 + pc[j], 4)) >>])

\* The statement that restores a row.
Replace(t, row) ==
  [t |-> "replace", db |-> t.db, tab |-> t.name,
   vals |-> LET n == Len(t.cols)
                shown == IF t.cols[n].k = "ftsdoc" THEN n - 1 ELSE n     \* the hidden column is the last one
            IN [i \in 1..shown |-> Exp(t.cols[i], row[i])]]

TabRec(t, row, fmt, del, salt) == Rec(Phys(t, row, salt), fmt, del)

\* A leaf page of the table with the given slots and lists.
LeafPage(t, no, fmt, slots, live, free, salt) ==
  [no |-> no, space |-> t.space, fmt |-> fmt, level |-> 0, index |-> t.idx, maxtrx |-> Zeros(8),
   slots |-> slots, live |-> live, free |-> free, salt |-> salt]

\* A page with these rows, all live, in this order.
RowsPage(t, no, fmt, rows, salt) ==
  LET n == Len(rows)
  IN LeafPage(t, no, fmt, [i \in 1..n |-> MkSlot(TabRec(t, rows[i], fmt, FALSE, salt + i), fmt)],
              [i \in 1..n |-> i], <<>>, salt)

\* The first pages of a table's own file: header, change buffer bitmap, inode.
TabHead(t, salt) ==
  << OtherPage(0, t.space, 8, Noise(salt, 31, 60), salt),
     OtherPage(1, t.space, 5, <<>>, salt + 1),
     OtherPage(2, t.space, 3, Noise(salt, 33, 80), salt + 2) >>

\* A complete table file whose leaf pages start at page 3.
Neighbours(pages, i) == <<IF i = 1 THEN NoPage ELSE U4(pages[i - 1].no), IF i = Len(pages) THEN NoPage ELSE U4(pages[i + 1].no)>>
TabFile(t, pages, salt) ==
  FileChunks(TabHead(t, salt) \o [i \in 1..Len(pages) |-> PageChunks(pages[i] @@ [nb |-> Neighbours(pages, i)])])

(***************************************************************************)
(* Dictionary rows, always in the redundant format.                        *)
(***************************************************************************)
DCol(n, w) == [n |-> n, k |-> "varbinary", w |-> w, mb |-> 1, u |-> FALSE, nn |-> FALSE]
DField(b) == <<DCol(<<>>, 0), S(b)>>
DNull == <<DCol(<<>>, 0), Null>>
DTrx(salt) == <<DField(Zeros(4) \o Noise(salt, 41, 2)), DField(<<128>> \o Noise(salt, 43, 6))>>

FullName(t) == IF t.db = <<>> THEN t.name ELSE t.db \o <<47>> \o t.name

SysTablesRow(t, salt) ==
  LET nv == IF HasVirt(t) THEN Cardinality({j \in 1..Len(t.cols) : IsVirt(t, j)}) ELSE 0
  IN <<DField(FullName(t))>> \o DTrx(salt)
     \o <<DField(t.id), DField(<<(IF salt % 5 = 4 THEN 0 ELSE 128) + (nv \div 256), nv % 256>> \o U2(Len(t.cols) - nv)),
          DField(U4(<<33, 1, 33, 41, 97>>[1 + (salt % 5)])), DField(Zeros(8)),
          DField(U4(<<80, 16, 80, 0, 90>>[1 + (salt % 5)])), IF salt % 3 = 1 THEN DField(<<>>) ELSE DNull, DField(t.space)>>

\* The position, counted from 0.  The stored columns do not count the virtual
\* ones; these have their own number in the upper half, and the declared
\* position in the lower one.
NVirt(t, i) == Cardinality({j \in 1..i : IsVirt(t, j)})
ColPos(t, i) == IF ~HasVirt(t) THEN U4(i - 1)
                ELSE IF IsVirt(t, i) THEN U2(NVirt(t, i)) \o U2(i - 1)
                ELSE U4(i - 1 - NVirt(t, i))
\* The columns in the order of their positions.
ColOrder(t) == LET n == Len(t.cols) IN
               IF ~HasVirt(t) THEN [i \in 1..n |-> i]
               ELSE SelectSeq([i \in 1..n |-> i], LAMBDA i : ~IsVirt(t, i)) \o SelectSeq([i \in 1..n |-> i], LAMBDA i : IsVirt(t, i))
SysColumnsRow(t, i, salt) ==
  <<DField(t.id), DField(ColPos(t, i))>> \o DTrx(salt)
  \o <<DField(t.cols[i].n), DField(U4(MType(t.cols[i]))), DField(U4(PrType(t.cols[i]))),
       DField(U4(ColLen(t.cols[i]))), DField(U4(IF t.cols[i].k = "virtual" THEN 1 ELSE 0))>>

\* typ: 1 clustered, 2 unique, 32 fulltext, which has no tree;  wide: with the column MERGE_THRESHOLD
SysIndexesRow(t, id, name, nf, typ, wide, salt) ==
  <<DField(t.id), DField(id)>> \o DTrx(salt)
  \o <<DField(name), DField(U4(nf)), DField(U4(typ)), DField(t.space), DField(IF typ = 32 THEN Rep(255, 4) ELSE U4(3))>>
  \o (IF wide THEN <<DField(U4(50))>> ELSE <<>>)

\* If a field of the index is a prefix then the length is behind all positions.
FieldPos(j, anyPfx, len) == IF anyPfx THEN U2(j - 1) \o U2(len) ELSE U4(j - 1)
SysFieldsRow(id, pos, name, salt) ==
  <<DField(id), DField(pos)>> \o DTrx(salt) \o <<DField(name)>>
ClustFieldsRow(t, j, salt) == SysFieldsRow(t.idx, FieldPos(j, HasPfx(t), PfxOf(t, j)), t.cols[t.key[j]].n, salt)
SecType(x) == IF "typ" \in DOMAIN x THEN x.typ ELSE IF x.uniq THEN 2 ELSE 0

TablesRows(ts, salt) == [i \in 1..Len(ts) |-> SysTablesRow(ts[i], salt + i)]
ColumnsRows(ts, salt) ==
  Cat([i \in 1..Len(ts) |-> LET o == ColOrder(ts[i]) IN [j \in 1..Len(o) |-> SysColumnsRow(ts[i], o[j], salt + i)]])
ClustType(t) == IF t.key = <<>> THEN 1 ELSE 3
IndexesRows(ts, wide, salt) ==
  Cat([i \in 1..Len(ts) |->
        <<SysIndexesRow(ts[i], ts[i].idx, ts[i].keyname, Len(ts[i].key), ClustType(ts[i]), wide, salt + i)>>
        \o [j \in 1..Len(ts[i].sec) |->
             SysIndexesRow(ts[i], ts[i].sec[j].id, ts[i].sec[j].name, Len(ts[i].sec[j].key),
                           SecType(ts[i].sec[j]), wide, salt + i)]])
FieldsRows(ts, salt) ==
  Cat([i \in 1..Len(ts) |->
        [j \in 1..Len(ts[i].key) |-> ClustFieldsRow(ts[i], j, salt + i)]
        \o Cat([x \in 1..Len(ts[i].sec) |->
             [j \in 1..Len(ts[i].sec[x].key) |->
               SysFieldsRow(ts[i].sec[x].id, U4(j - 1), ts[i].cols[ts[i].sec[x].key[j]].n, salt + i)]])])

\* A page of a dictionary table with these rows.
DictPage(no, index, level, rows, salt) ==
  LET n == Len(rows)
  IN [no |-> no, space |-> Zeros(4), fmt |-> "R", level |-> level, index |-> U8(index), maxtrx |-> Zeros(8),
      slots |-> [i \in 1..n |-> MkSlot(Rec(rows[i], "R", FALSE), "R")],
      live |-> [i \in 1..n |-> i], free |-> <<>>, salt |-> salt]

\* Node pointer records: the key's first fields and a child page number.
NodePtr(key, child) == [i \in 1..Len(key) |-> DField(key[i])] \o <<DField(U4(child))>>

\* The dictionary header page.
DictHeader(roots, salt) ==
  OtherPage(7, Zeros(4), 6,
    Noise(salt, 51, 24) \o Noise(salt, 53, 8) \o U4(roots[1]) \o U4(9) \o U4(roots[2]) \o U4(roots[3]) \o U4(roots[4]),
    salt)

Filler(no, salt) == OtherPage(no, Zeros(4), 2, Noise(salt, 55, 40), salt)

\* The simplest system tablespace: one root page per dictionary table, and
\* leaf pages of SYS_COLUMNS behind them where the columns do not fit in one.
PerColumnsPage == 200
ColumnsLeaves(ts) ==
  LET n == FoldLeft(LAMBDA a, t : a + Len(t.cols), 0, ts)
  IN IF n <= PerColumnsPage THEN 0 ELSE (n + PerColumnsPage - 1) \div PerColumnsPage
SimpleDict(ts, salt) ==
  LET m == ColumnsLeaves(ts)
      rows == Eval(ColumnsRows(ts, salt))
      \* the last leaf page comes first in the file
      leaf(j) == SubSeq(rows, (j - 1) * PerColumnsPage + 1, Min2(j * PerColumnsPage, Len(rows)))
      at(j) == 12 + m - j + 1
  IN FileChunks(
    [i \in 1..7 |-> Filler(i - 1, salt + i)]
    \o << DictHeader(<<8, 10, 11, 12>>, salt),
          PageChunks(DictPage(8, 1, 0, TablesRows(ts, salt), salt + 8)),
          PageChunks(DictPage(9, 5, 0, <<>>, salt + 9)),
          PageChunks(IF m = 0 THEN DictPage(10, 2, 0, rows, salt + 10)
                     ELSE DictPage(10, 2, 1, [j \in 1..m |-> SubSeq(leaf(j)[1], 1, 2) \o <<DField(U4(at(j)))>>], salt + 10)),
          PageChunks(DictPage(11, 3, 0, IndexesRows(ts, salt % 2 = 0, salt), salt + 11)),
          PageChunks(DictPage(12, 4, 0, FieldsRows(ts, salt), salt + 12)) >>
    \o [k \in 1..m |-> PageChunks(DictPage(12 + k, 2, 0, leaf(m - k + 1), salt + 20 + k)
                                 @@ [nb |-> <<IF k = m THEN NoPage ELSE U4(13 + k), IF k = 1 THEN NoPage ELSE U4(11 + k)>>])])
SimpleDictPages == 13
SimpleDictSize(ts) == SimpleDictPages + ColumnsLeaves(ts)

=============================================================================
