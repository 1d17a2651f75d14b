-------------------------------- MODULE Full --------------------------------
(***************************************************************************)
(* Pages which are filled up to the page directory: a few long rows and a  *)
(* short last one whose end is a chosen number of bytes before the         *)
(* directory, or as many of the shortest rows as there is room for.  The   *)
(* last record is the first, a middle or the last one of the record list   *)
(* or of the free list.                                                    *)
(***************************************************************************)
EXTENDS Gen

CONSTANT Which     \* the property: "01", "02", "11"

(***************************************************************************)
(* A few long rows.                                                        *)
(***************************************************************************)
TL == TabS(<<UCol(Str("n"), "int", 2, FALSE), ID, Col(Str("v"), "varchar", 8000, FALSE)>>, <<2>>)
Txt(k, len) == [i \in 1..len |-> 97 + ((k * 7 + i) % 26)]
LongRow(k, len) == <<IF k % 3 = 0 THEN Null ELSE W(U2(k * 1000)), Id(k), IF len = 0 THEN Null ELSE S(Txt(k, len))>>

\* Keys in heap order: the last slot has the given rank in key order.
KeysOf(pos) == CASE pos = "first" -> <<2, 3, 4, 5, 1>> [] pos = "middle" -> <<1, 5, 2, 4, 3>> [] pos = "last" -> <<2, 1, 4, 3, 5>>
Slots5 == <<1, 2, 3, 4, 5>>
\* The slots which are on the free list, the head first.
FreeOf(role) == CASE role \in {"live", "marked"} -> <<2>> [] role = "alone" -> <<5>> [] role = "head" -> <<5, 3>> [] role = "tail" -> <<1, 4, 5>>
ByKey(ks, ids) == SortSeq(ids, LAMBDA a, b : ks[a] < ks[b])
DirLen(nl) == 2 * (2 + Cardinality({i \in 1..nl : IsOwner(i, nl)}))

RECURSIVE Lens(_, _)
\* The lengths of the four long texts, which are n bytes together.
Lens(n, k) == IF k = 1 THEN <<n>> ELSE LET x == Min2(7000 - k * 500, (n \div k) + k * 400) IN <<x>> \o Lens(n - x, k - 1)
FullPage(s, fmt) ==
  LET ks == KeysOf(s.pos)
      free == FreeOf(s.role)
      live == ByKey(ks, SelectSeq(Slots5, LAMBDA i : ~Contains(free, i)))
      rec(i, len, del) == TabRec(TL, LongRow(ks[i], len), fmt, del, ks[i])
      \* what the rows need without their long texts (two length bytes each)
      base == FoldLeft(LAMBDA a, i : a + RecSize(rec(i, 1000, FALSE), fmt) - 1000, RecSize(rec(5, s.small, FALSE), fmt), <<1, 2, 3, 4>>)
      lens == Eval(Lens(PageSize - 8 - DirLen(Len(live)) - s.gap - HeapStart(fmt) - base, 4))
      len(i) == IF i = 5 THEN s.small ELSE lens[i]
      del(i) == (i = 5 /\ s.role = "marked") \/ (i = 3 /\ s.gap % 2 = 1)
      slots == [i \in 1..5 |-> MkSlot(rec(i, len(i), del(i)), fmt)]
  IN [pg |-> LeafPage(TL, 3, fmt, slots, live, free, Seed + s.gap),
      rows |-> [i \in 1..5 |-> LongRow(ks[i], len(i))]]

(***************************************************************************)
(* As many rows as there is room for.                                      *)
(***************************************************************************)
TS == TabS(<<UCol(Str("id"), "int", 2, TRUE), Col(Str("c"), "char", 1, TRUE)>>, <<1>>)
TinyRow(k) == <<W(U2(k)), S(<<65 + (k % 26)>>)>>
TinySize(fmt) == RecSize(TabRec(TS, TinyRow(1), fmt, FALSE, 1), fmt)
ManyPage(s, fmt) ==
  LET n == ((PageSize - 8 - HeapStart(fmt) - 4) * 5) \div (TinySize(fmt) * 5 + 2)
      all == [i \in 1..n |-> i]
      isfree(i) == CASE s.role = "live" -> FALSE [] s.role = "marked" -> i % 7 = 0 [] s.role = "alone" -> i = n
                     [] s.role = "head" -> i % 2 = n % 2 [] s.role = "tail" -> i % 10 > 0
      live == SelectSeq(all, LAMBDA i : ~isfree(i))
      free0 == SelectSeq(all, isfree)
      free == IF s.role = "head" THEN Reverse(free0) ELSE free0
      slots == [i \in 1..n |-> MkSlot(TabRec(TS, TinyRow(i), fmt, s.role = "marked", i), fmt)]
  IN [pg |-> LeafPage(TS, 3, fmt, slots, live, free, Seed), rows |-> [i \in 1..n |-> TinyRow(i)]]

(***************************************************************************)
(* Behaviours.                                                             *)
(***************************************************************************)
VARIABLE st
Roles == {"live", "marked", "alone", "head", "tail"}
Init == st \in [ph : {"role"}, role : Roles]
Next == /\ st.ph = "role"
        /\ \/ \E pos \in {"first", "middle", "last"}, small \in {0, 1, 90, 220}, gap \in (IF Deep = 1 THEN 0..40 \cup {64, 128, 220, 250, 251, 252, 255, 256, 300} ELSE {0, 1, 7, 250}) :
                st' = [ph |-> "long", role |-> st.role, pos |-> pos, small |-> small, gap |-> gap]
           \/ st' = [ph |-> "many", role |-> st.role]

Pg(s, fmt) == IF s.ph = "long" THEN FullPage(s, fmt) ELSE ManyPage(s, fmt)
TabOf(s) == IF s.ph = "long" THEN TL ELSE TS
Runs(s, file, p) ==
  LET t == TabOf(s)
      of(ids) == [i \in 1..Len(ids) |-> Replace(t, p.rows[ids[i]])]
      l == DataRun("ibdata1", file, t, Live, of(p.pg.live))
      f == DataRun("ibdata1", file, t, Deleted, of(p.pg.free))
  IN CASE Which = "01" -> <<l>> [] Which = "02" -> <<f>> [] OTHER -> <<l, f>>
Name(s) == IF s.ph = "many" THEN "many-" \o s.role
           ELSE s.role \o "-" \o s.pos \o "-" \o ToString(s.small) \o "-" \o ToString(s.gap)
Case(s) ==
  LET t == TabOf(s)
      c == Pg(s, "C")   r == Pg(s, "R")
  IN [id |-> "C" \o Which \o "-full-" \o Name(s), d |-> "a page filled up to its directory: " \o Name(s),
      files |-> <<DictFileOf(<<t>>, Seed), FilePages("tC", 4, TabFile(t, <<c.pg>>, Seed)), FilePages("tR", 4, TabFile(t, <<r.pg>>, Seed))>>,
      runs |-> Runs(s, "tC", c) \o Runs(s, "tR", r)]
Emit == st.ph # "role" => EmitCase(Case(st))

\* The heap ends where it was meant to, and not in the directory.
Fits == st.ph # "role" =>
  \A fmt \in {"C", "R"} :
    LET p == Pg(st, fmt).pg
        starts == SlotStarts(p)
        end == starts[Len(starts)]
        room == PageSize - 8 - DirLen(Len(p.live)) - end
    IN IF st.ph = "long" THEN room = st.gap ELSE room >= 0
=============================================================================
