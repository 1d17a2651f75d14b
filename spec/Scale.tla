------------------------------- MODULE Scale --------------------------------
(***************************************************************************)
(* Long table files.  A state is the number of pages and how they are      *)
(* used: leaf pages at chosen places (next to the ends of extents, to the  *)
(* repeated header pages and to powers of two) and nothing or internal and *)
(* secondary pages between, or leaf pages all over.  Every leaf page has   *)
(* two rows and a deleted one.                                             *)
(***************************************************************************)
EXTENDS Gen

CONSTANT Which     \* the property: "01", "02", "03", "11"

TL == TabS(<<UCol(Str("n"), "int", 4, FALSE), ID, Col(Str("v"), "varchar", 40, FALSE)>>, <<2>>)
Places == {3, 4, 5} \cup UNION {{p - 2, p - 1, p + 2, p + 3} : p \in {64, 128, 192, 256, 320, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 20000, 32768, 49152, 65536, 131072, 262144}}
          \cup UNION {{p, p + 1} : p \in {64, 128, 192, 256, 320, 512, 1000, 1024, 2048, 4096, 8192, 10000, 20000}}
\* The pages of the space's own bookkeeping come again every 16384 pages.
Header(p) == p % 16384 \in {0, 1}

Sizes == {4, 5, 64, 65, 66, 129, 193, 257, 258, 513, 514, 1026, 2050, 4098} \cup {10003, 16386, 16387, 20004, 32771, 65541} \cup (IF Deep = 1 THEN {131075, 262147} ELSE {})
Dense == {40, 64, 65, 128, 129, 256, 257, 258, 300} \cup (IF Deep = 1 THEN {512, 513, 700, 1030} ELSE {})

VARIABLE st
Init == \/ st \in [ph : {"size"}, n : Sizes, use : {"places"}]
        \/ st \in [ph : {"size"}, n : Dense, use : {"dense"}]
Next == /\ st.ph = "size"
        /\ \E fmt \in {"C", "R"} :
             /\ (st.n > 16000 => (fmt = "C" \/ Deep = 1))
             /\ st' = [ph |-> "case", n |-> st.n, use |-> st.use, fmt |-> fmt]

LeafNos(s) == SetToSortSeq({p \in (IF s.use = "dense" THEN 3..(s.n - 1) ELSE {q \in Places : q < s.n} \cup {s.n - 1}) : p >= 3 /\ ~Header(p)}, <)
RowOf(p, k) == <<IF (p + k) % 5 = 0 THEN Null ELSE W(U4(p * 10 + k)), Id(p * 8 + k), IF (p + k) % 7 = 0 THEN Null ELSE S(Str("page ") \o Dig(p, 6) \o <<64 + k>>)>>
PageAt(s, p, prev, next) ==
  LeafPage(TL, p, s.fmt, [k \in 1..3 |-> MkSlot(TabRec(TL, RowOf(p, k), s.fmt, k = 2, p + k), s.fmt)], <<1, 3>>, <<2>>, Seed + p)
  @@ [nb |-> <<prev, next>>]
\* Between the leaf pages stand internal pages and pages of a secondary index.
Other(s, p) ==
  LET l == PageAt(s, p, NoPage, NoPage)
  IN CASE p % 3 = 0 -> PageChunks([l EXCEPT !.level = 1 + (p % 2)])
       [] p % 3 = 1 -> PageChunks([l EXCEPT !.maxtrx = U8(p), !.index = U8(900)])
       [] OTHER -> OtherPage(p, TL.space, <<0, 2, 3, 10>>[1 + (p % 4)], Noise(p, 3, 100), p)
At(p, chunks) == [j \in 1..Len(chunks) |-> <<p, chunks[j][1], chunks[j][2]>>]
Case(s) ==
  LET ls == LeafNos(s)
      n == Len(ls)
      key(i) == IF i = 0 \/ i > n THEN NoPage ELSE U4(ls[i])
      leaves == Cat([i \in 1..n |-> At(ls[i], PageChunks(PageAt(s, ls[i], key(i - 1), key(i + 1))))])
      heads == Cat([i \in 1..3 |-> At(i - 1, TabHead(TL, Seed)[i])])
               \o Cat([i \in 1..((s.n - 1) \div 16384) |-> At(i * 16384, OtherPage(i * 16384, TL.space, 9, Noise(i, 31, 60), i))
                                                            \o (IF i * 16384 + 1 < s.n THEN At(i * 16384 + 1, OtherPage(i * 16384 + 1, TL.space, 5, <<>>, i)) ELSE <<>>)])
      gaps == IF Which # "03" \/ s.use = "dense" THEN <<>>
              ELSE SetToSortSeq({p \in UNION {{ls[i] - 1, ls[i] + 1} : i \in 1..n} : p > 2 /\ p < s.n /\ ~Contains(ls, p) /\ ~Header(p)}, <)
      others == Cat([i \in 1..Len(gaps) |-> At(gaps[i], Other(s, gaps[i]))])
      name == "C" \o Which \o "-pages-" \o s.use \o ToString(s.n) \o "-" \o s.fmt
      live == Cat([i \in 1..n |-> <<Replace(TL, RowOf(ls[i], 1)), Replace(TL, RowOf(ls[i], 3))>>])
      dead == [i \in 1..n |-> Replace(TL, RowOf(ls[i], 2))]
  IN [id |-> name, d |-> "a file of many pages " \o name,
      files |-> <<DictFileOf(<<TL>>, Seed), FilePages("t.ibd", s.n, heads \o leaves \o others)>>,
      runs |-> (IF Which = "02" THEN <<>> ELSE <<DataRun("ibdata1", "t.ibd", TL, Live, live)>>)
               \o (IF Which = "01" THEN <<>> ELSE <<DataRun("ibdata1", "t.ibd", TL, Deleted, dead)>>)]
Emit == st.ph = "case" => EmitCase(Case(st))
\* Every page has one use.
OneUse == st.ph = "case" => LET ls == LeafNos(st) IN \A i \in 1..Len(ls) : ~Header(ls[i]) /\ ls[i] < st.n
=============================================================================
