-------------------------------- MODULE C11 --------------------------------
(***************************************************************************)
(* C11: the row format does not matter.  A state is a table of random      *)
(* columns; the behaviour stores the same live and deleted rows in a file  *)
(* of compact pages, a file of redundant pages, and a file of both.        *)
(***************************************************************************)
EXTENDS Values

VARIABLE st
Init == st \in [ph : {"size"}, nc : (1..24) \cup {32, 40}]
Next == /\ st.ph = "size"
        /\ \E x \in 1..(IF Deep = 1 THEN 60 ELSE 8), long \in BOOLEAN :
              st' = [ph |-> "case", nc |-> st.nc, x |-> x, long |-> long]

Sd(s) == Seed * 733 + s.nc * 41 + s.x * 7
\* Columns which are part of the key besides the id, and virtual columns.
KindAt(s, j) == Kinds9[1 + R(Sd(s), j, Len(Kinds9))][1]
InKey(s) == IF R(Sd(s), 5, 3) # 0 THEN <<>> ELSE LET c == SelectSeq([j \in 1..s.nc |-> j], LAMBDA j : KindAt(s, j) \notin Blobs \cup {"utf32"} /\ R(Sd(s), 700 + j, 3) = 0) IN SubSeq(c, 1, Min2(Len(c), 2))
IsV(s, j) == R(Sd(s), 8, 3) = 0 /\ R(Sd(s), 800 + j, 4) = 0 /\ ~Contains(InKey(s), j)
ColAt(s, j) == IF IsV(s, j) THEN VirtCol(Str("n") \o Dig(j, 2), 1 + R(Sd(s), 830 + j, 2)) ELSE
               LET k == Kinds9[1 + R(Sd(s), j, Len(Kinds9))]
               IN [n |-> Str("n") \o Dig(j, 2), k |-> k[1], w |-> IF k[1] = "utf32" /\ s.nc > 1 THEN 5 ELSE k[2], mb |-> IF k[1] = "varcharmb" THEN 4 ELSE IF k[1] = "charmb" THEN 1 + R(Sd(s), 150 + j, 4) ELSE 1,
                   u |-> k[1] = "int" /\ R(Sd(s), 50 + j, 2) = 0, nn |-> R(Sd(s), 100 + j, 3) = 0 \/ Contains(InKey(s), j)]
\* Where the id stands, and whether it is the key.
Tail2 == <<Col(Str("txt"), "varchar", 600, FALSE)>>
KeyPos(s) == 1 + R(Sd(s), 3, s.nc + 1)
TabOf(s) == LET body == [j \in 1..s.nc |-> ColAt(s, j)]
                k == KeyPos(s)
                            ks == [i \in 1..Len(InKey(s)) |-> InKey(s)[i] + (IF InKey(s)[i] >= k THEN 1 ELSE 0)]
            IN TabS(SubSeq(body, 1, k - 1) \o <<ID>> \o SubSeq(body, k, s.nc) \o Tail2, IF R(Sd(s), 4, 4) = 0 THEN <<>> ELSE IF R(Sd(s), 6, 2) = 0 THEN <<k>> \o ks ELSE ks \o <<k>>)
               @@ (IF \E j \in 1..s.nc : IsV(s, j) THEN [virt |-> TRUE] ELSE <<>>)
ValAt(s, j, r) == LET c == ColAt(s, j)
                  IN IF c.k = "virtual" THEN (IF r % 2 = 0 THEN Null ELSE W(U4(r))) ELSE IF ~c.nn /\ R(Sd(s) + r, j, 3) = 0 THEN Null ELSE Vals(c.k, c.w)[1 + R(Sd(s) + r, 60 + j, 3)]
\* long: every row is longer than 127 bytes, so that offsets take two bytes
TxtLen(s, r) == IF s.long THEN 130 + R(Sd(s), 400 + r, 400) ELSE R(Sd(s), 400 + r, 20)
RowAt(s, r) == LET body == [j \in 1..s.nc |-> ValAt(s, j, r)]
                   k == KeyPos(s)
               IN SubSeq(body, 1, k - 1) \o <<Id(r)>> \o SubSeq(body, k, s.nc)
                  \o <<IF R(Sd(s), 500 + r, 5) = 0 THEN Null ELSE S([i \in 1..TxtLen(s, r) |-> 97 + ((i + r) % 26)])>>

\* Every page has live rows (some delete-marked) and deleted ones between them.
NRows == 8
PageAt(s, t, p, fmt) ==
  LET rows == [i \in 1..NRows |-> RowAt(s, (p - 1) * NRows + i)]
      slots == [i \in 1..NRows |-> MkSlot(TabRec(t, rows[i], fmt, i % 3 = 0, i + p), fmt)]
      isfree(i) == R(Sd(s), 600 + p * 20 + i, 3) = 0
  IN LeafPage(t, 2 + p, fmt, slots, SelectSeq([i \in 1..NRows |-> i], LAMBDA i : ~isfree(i)),
              Reverse(SelectSeq([i \in 1..NRows |-> i], LAMBDA i : isfree(i))), Seed + p)
NPages(s) == 1 + R(Sd(s), 7, 3)
FmtOf(kind, p, s) == CASE kind = "C" -> "C" [] kind = "R" -> "R" [] OTHER -> IF (p + s.x) % 2 = 0 THEN "C" ELSE "R"
FileOf(s, t, kind) == FilePages("t" \o kind, 3 + NPages(s), TabFile(t, [p \in 1..NPages(s) |-> PageAt(s, t, p, FmtOf(kind, p, s))], Seed))
ExpOf(s, t, free) ==
  Cat([p \in 1..NPages(s) |->
        LET pg == PageAt(s, t, p, "C")
            ids == IF free THEN pg.free ELSE pg.live
        IN [i \in 1..Len(ids) |-> Replace(t, RowAt(s, (p - 1) * NRows + ids[i]))]])
B(b) == IF b THEN "long" ELSE "short"
Case(s) ==
  LET t == TabOf(s)
      l == ExpOf(s, t, FALSE)
      f == ExpOf(s, t, TRUE)
  IN [id |-> "C11-" \o ToString(s.nc) \o "-" \o ToString(s.x) \o "-" \o B(s.long), d |-> "the same rows in both row formats",
      files |-> <<DictFileOf(<<t>>, Seed), FileOf(s, t, "C"), FileOf(s, t, "R"), FileOf(s, t, "M")>>,
      runs |-> << DataRun("ibdata1", "tC", t, Live, l), DataRun("ibdata1", "tR", t, Live, l), DataRun("ibdata1", "tM", t, Live, l),
                  DataRun("ibdata1", "tC", t, Deleted, f), DataRun("ibdata1", "tR", t, Deleted, f), DataRun("ibdata1", "tM", t, Deleted, f) >>]
Emit == st.ph = "case" => EmitCase(Case(st))
Decodable == st.ph = "case" =>
  LET t == TabOf(st) IN \A r \in 1..3 : \A fmt \in {"C", "R"} : Readable(Phys(t, RowAt(st, r), r), fmt)
=============================================================================
