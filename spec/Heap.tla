-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The pages of a table as InnoDB's operations leave them behind.          *)
(*                                                                         *)
(* A page is a heap of slots; the live records are linked in key order,    *)
(* deleted ones are on the free list, the last deleted first.  An insert   *)
(* reuses the first free slot if it is large enough, and otherwise takes   *)
(* new space.  A split moves one half of the records to another page; what *)
(* stays behind of them goes to the free list.                             *)
(*                                                                         *)
(* tab and gone are history variables: the contents of the table and, per  *)
(* page, the deleted versions whose space has not been reused.             *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Keys,       \* the largest key
          MaxSlots, MaxPages,
          Classes,    \* size classes of rows
          Flavours,   \* kinds of tables
          Some,       \* emit one of so many states
          Every       \* random histories: emit after that many steps (0: every state)

VARIABLES pages,   \* page -> [slots, live, free, lost]
          order,   \* the pages in key order
          tab,     \* key -> <<>> or <<record>>
          gone,    \* page -> sequence of records
          fl,      \* kind of table
          n,       \* number of steps (random histories only)
          show     \* this state is emitted (random histories only)
vars == <<pages, order, tab, gone, fl, n, show>>

\* A record: key, version, size class, delete mark.
Record(k, v, c, d) == [k |-> k, v |-> v, c |-> c, d |-> d]
Empty == [slots |-> <<>>, live |-> <<>>, free |-> <<>>, lost |-> FALSE]

Init == /\ pages = <<Empty>> /\ order = <<1>> /\ tab = [k \in 1..Keys |-> <<>>] /\ gone = << <<>> >>
        /\ fl \in Flavours /\ n = 0 /\ show = FALSE

Step == n' = (IF Every = 0 THEN 0 ELSE n + 1) /\ show' = FALSE

LiveKeys(p) == [i \in 1..Len(pages[p].live) |-> pages[p].slots[pages[p].live[i]].k]
PageOf(k) == IF \E p \in DOMAIN pages : \E i \in 1..Len(pages[p].live) : LiveKeys(p)[i] = k
             THEN CHOOSE p \in DOMAIN pages : \E i \in 1..Len(pages[p].live) : LiveKeys(p)[i] = k
             ELSE LET before == SelectSeq(order, LAMBDA p : pages[p].live # <<>> /\ LiveKeys(p)[1] < k)
                  IN IF before = <<>> THEN order[1] ELSE before[Len(before)]
SlotOf(pg, k) == CHOOSE i \in 1..Len(pg.slots) : Contains(pg.live, i) /\ pg.slots[i].k = k

\* Link a record into the list behind the smaller keys.
Link(pg, live, i, k) ==
  LET lo == SelectSeq(live, LAMBDA j : pg.slots[j].k < k)
  IN lo \o <<i>> \o SubSeq(live, Len(lo) + 1, Len(live))

\* Place a record on a page: its first free slot, or new space.
Fits(pg, r) == pg.free # <<>> /\ pg.slots[pg.free[1]].c >= r.c
SizeOf(c) == CASE c = 0 -> 0 [] c = 1 -> 9 [] c = 2 -> 200 [] c = 3 -> 1500
Used(pg) == FoldLeft(LAMBDA a, s : a + SizeOf(s.cap) + 60, 0, pg.slots)
CanPlace(pg, r) == Fits(pg, r) \/ (Len(pg.slots) < MaxSlots /\ Used(pg) + SizeOf(r.c) < 15500)
Place(pg, r) ==
  IF Fits(pg, r)
  THEN LET i == pg.free[1]
           q == [pg EXCEPT !.slots[i] = [k |-> r.k, v |-> r.v, c |-> r.c, d |-> r.d, cap |-> pg.slots[i].cap],
                           !.free = SubSeq(@, 2, Len(@)), !.lost = @ \/ pg.slots[i].c > r.c]
       IN [q EXCEPT !.live = Link(q, @, i, r.k)]
  ELSE LET i == Len(pg.slots) + 1
           q == [pg EXCEPT !.slots = Append(@, [k |-> r.k, v |-> r.v, c |-> r.c, d |-> r.d, cap |-> r.c])]
       IN [q EXCEPT !.live = Link(q, @, i, r.k)]
GoneAfterPlace(g, pg, r) == IF Fits(pg, r) THEN SubSeq(g, 2, Len(g)) ELSE g

\* Take a record off the list.
Without(seq, i) == SelectSeq(seq, LAMBDA j : j # i)
Release(pg, i) == [pg EXCEPT !.live = Without(@, i), !.free = <<i>> \o @]
AsRecord(s) == Record(s.k, s.v, s.c, s.d)

Insert(k) ==
  /\ tab[k] = <<>>
  /\ \E c \in Classes, v \in 0..1 :
       LET p == PageOf(k)   r == Record(k, v, c, FALSE)
       IN /\ CanPlace(pages[p], r)
          /\ pages' = [pages EXCEPT ![p] = Place(@, r)]
          /\ gone' = [gone EXCEPT ![p] = GoneAfterPlace(@, pages[p], r)]
          /\ tab' = [tab EXCEPT ![k] = <<r>>]
  /\ UNCHANGED <<order, fl>> /\ Step

DeleteMark(k) ==
  /\ tab[k] # <<>> /\ ~tab[k][1].d
  /\ LET p == PageOf(k)   i == SlotOf(pages[p], k)
     IN pages' = [pages EXCEPT ![p].slots[i].d = TRUE]
  /\ tab' = [tab EXCEPT ![k] = <<[@[1] EXCEPT !.d = TRUE]>>]
  /\ UNCHANGED <<order, gone, fl>> /\ Step

Purge(k) ==
  /\ tab[k] # <<>> /\ tab[k][1].d
  /\ LET p == PageOf(k)   i == SlotOf(pages[p], k)
     IN /\ pages' = [pages EXCEPT ![p] = Release(@, i)]
        /\ gone' = [gone EXCEPT ![p] = <<tab[k][1]>> \o @]
  /\ tab' = [tab EXCEPT ![k] = <<>>]
  /\ UNCHANGED <<order, fl>> /\ Step

\* The rollback of an insert removes a record without a mark.
Rollback(k) ==
  /\ tab[k] # <<>> /\ ~tab[k][1].d
  /\ LET p == PageOf(k)   i == SlotOf(pages[p], k)
     IN /\ pages' = [pages EXCEPT ![p] = Release(@, i)]
        /\ gone' = [gone EXCEPT ![p] = <<tab[k][1]>> \o @]
  /\ tab' = [tab EXCEPT ![k] = <<>>]
  /\ UNCHANGED <<order, fl>> /\ Step

\* An update of the same size, also of a delete-marked row (an insert of the
\* same key), is done in place.
UpdateInPlace(k) ==
  /\ tab[k] # <<>>
  /\ LET p == PageOf(k)   i == SlotOf(pages[p], k)
     IN pages' = [pages EXCEPT ![p].slots[i].v = 1 - @, ![p].slots[i].d = FALSE]
  /\ tab' = [tab EXCEPT ![k] = <<[@[1] EXCEPT !.v = 1 - @, !.d = FALSE]>>]
  /\ UNCHANGED <<order, gone, fl>> /\ Step

\* An update of another size removes the record and places the new one.
UpdateMove(k) ==
  /\ tab[k] # <<>> /\ ~tab[k][1].d
  /\ \E c \in Classes :
       LET p == PageOf(k)   i == SlotOf(pages[p], k)
           r == Record(k, 1 - tab[k][1].v, c, FALSE)
           mid == Release(pages[p], i)
           gm == <<tab[k][1]>> \o gone[p]
       IN /\ c # tab[k][1].c
          /\ CanPlace(mid, r)
          /\ pages' = [pages EXCEPT ![p] = Place(mid, r)]
          /\ gone' = [gone EXCEPT ![p] = GoneAfterPlace(gm, mid, r)]
          /\ tab' = [tab EXCEPT ![k] = <<r>>]
  /\ UNCHANGED <<order, fl>> /\ Step

\* A page with only these records, in this order.
Fresh(rs) == [slots |-> [i \in 1..Len(rs) |-> [k |-> rs[i].k, v |-> rs[i].v, c |-> rs[i].c, d |-> rs[i].d, cap |-> rs[i].c]],
              live |-> [i \in 1..Len(rs) |-> i], free |-> <<>>, lost |-> FALSE]
Recs(pg, ids) == [i \in 1..Len(ids) |-> AsRecord(pg.slots[ids[i]])]
At(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x

\* The upper half moves to a new page: its chain goes to the free list as it is.
SplitRight(p, h) ==
  /\ Len(pages) < MaxPages /\ h \in 1..(Len(pages[p].live) - 1)
  /\ LET pg == pages[p]
         mv == SubSeq(pg.live, h + 1, Len(pg.live))
         q  == Len(pages) + 1
         o  == At(order, p)
     IN /\ pages' = Append([pages EXCEPT ![p] = [pg EXCEPT !.live = SubSeq(@, 1, h), !.free = mv \o @]], Fresh(Recs(pg, mv)))
        /\ gone' = Append([gone EXCEPT ![p] = Recs(pg, mv) \o @], <<>>)
        /\ order' = SubSeq(order, 1, o) \o <<q>> \o SubSeq(order, o + 1, Len(order))
  /\ UNCHANGED <<tab, fl>> /\ Step

\* The lower half moves to a new page: its records are removed one by one.
SplitLeft(p, h) ==
  /\ Len(pages) < MaxPages /\ h \in 1..(Len(pages[p].live) - 1)
  /\ LET pg == pages[p]
         mv == SubSeq(pg.live, 1, h)
         q  == Len(pages) + 1
         o  == At(order, p)
     IN /\ pages' = Append([pages EXCEPT ![p] = [pg EXCEPT !.live = SubSeq(@, h + 1, Len(@)), !.free = Reverse(mv) \o @]], Fresh(Recs(pg, mv)))
        /\ gone' = Append([gone EXCEPT ![p] = Reverse(Recs(pg, mv)) \o @], <<>>)
        /\ order' = SubSeq(order, 1, o - 1) \o <<q>> \o SubSeq(order, o, Len(order))
  /\ UNCHANGED <<tab, fl>> /\ Step

Reorganize(p) ==
  /\ pages[p].free # <<>> \/ pages[p].lost
  /\ pages' = [pages EXCEPT ![p] = Fresh(Recs(@, @.live))]
  /\ gone' = [gone EXCEPT ![p] = <<>>]
  /\ UNCHANGED <<order, tab, fl>> /\ Step

\* In random histories every so many steps the state is emitted, by a step of its own.
Pausing == Every > 0 /\ n > 0 /\ n % Every = 0 /\ ~show
Show == Pausing /\ show' = TRUE /\ UNCHANGED <<pages, order, tab, gone, fl, n>>
Next == \/ Show
        \/ \E k \in 1..Keys : ~Pausing /\ Insert(k)
        \/ \E k \in 1..Keys : ~Pausing /\ DeleteMark(k)
        \/ \E k \in 1..Keys : ~Pausing /\ Purge(k)
        \/ \E k \in 1..Keys : ~Pausing /\ UpdateInPlace(k)
        \/ \E k \in 1..Keys : ~Pausing /\ UpdateMove(k)
        \/ \E k \in 1..Keys : ~Pausing /\ Rollback(k)
        \/ \E p \in DOMAIN pages, h \in 1..MaxSlots : ~Pausing /\ SplitRight(p, h)
        \/ \E p \in DOMAIN pages, h \in 1..MaxSlots : ~Pausing /\ SplitLeft(p, h)
        \/ \E p \in DOMAIN pages : ~Pausing /\ Reorganize(p)

\* States which differ in the versions of rows only are explored once.
Shape(pg) == [slots |-> [i \in 1..Len(pg.slots) |-> [pg.slots[i] EXCEPT !.v = 0]], live |-> pg.live, free |-> pg.free]
View == << [p \in DOMAIN pages |-> Shape(pages[p])], order, fl, n>>

(***************************************************************************)
(* Design invariants.                                                      *)
(***************************************************************************)
LiveRecs(p) == Recs(pages[p], pages[p].live)
FreeRecs(p) == Recs(pages[p], pages[p].free)
\* Following the record lists of the pages in key order gives the table.
LiveIsTable ==
  Cat([i \in 1..Len(order) |-> LiveRecs(order[i])]) =
  Cat([k \in 1..Keys |-> tab[k]])
\* The free lists hold the deleted versions, the last one first.
FreeIsGone == \A p \in DOMAIN pages : FreeRecs(p) = gone[p]
\* No slot is on both lists or twice on one.
Disjoint == \A p \in DOMAIN pages :
  LET l == pages[p].live   f == pages[p].free
  IN Cardinality(ToSet(l) \cup ToSet(f)) = Len(l) + Len(f)
Sized == \A p \in DOMAIN pages : \A i \in 1..Len(pages[p].slots) : pages[p].slots[i].c <= pages[p].slots[i].cap

(***************************************************************************)
(* The bytes.                                                              *)
(***************************************************************************)
Kinds4 == 1..4
TabOf ==
  CASE fl = 1 -> TabS(<<ID, Col(Str("v"), "varchar", 300, FALSE), UCol(Str("n"), "int", 2, TRUE)>>, <<1>>)
    [] fl = 2 -> TabS(<<Col(Str("v"), "varchar", 300, FALSE), ID>>, <<>>)
    [] fl = 3 -> TabS(<<UCol(Str("n"), "int", 2, FALSE), Col(Str("v"), "varbinary", 2000, FALSE), Col(Str("s"), "char", 4, TRUE), ID>>, <<3, 4>>)
    [] fl = 4 -> TabS(<<Col(Str("b"), "blob", 2, FALSE), ID, Col(Str("x"), "int", 8, FALSE), Col(Str("v"), "varchar", 40, FALSE)>>, <<2>>)

\* The row of a record; its size depends on the size class only.
Body(r, len) == [i \in 1..len |-> IF i = 1 THEN 64 + (r.k % 60) ELSE IF i = 2 THEN 65 + r.v ELSE 97 + ((r.k + i) % 26)]
RowOf(r) ==
  LET num == W(U2(r.k * 10 + r.v))
      txt(max) == IF r.c = 0 THEN Null ELSE S(Body(r, Min2(SizeOf(r.c), max)))
  IN CASE fl = 1 -> <<Id(r.k), txt(300), num>>
       [] fl = 2 -> <<txt(300), Id(r.k * 10 + r.v)>>
       [] fl = 3 -> <<num, txt(1500), S(Str("key") \o Dig(r.k % 10, 1)), Id(r.k)>>
       [] fl = 4 -> <<txt(1500), Id(r.k), W(Zeros(6) \o U2(r.k * 10 + r.v)), IF r.v = 0 THEN S(Str("short")) ELSE S(Str("other"))>>
RecOf(r, fmt) == TabRec(TabOf, RowOf(r), fmt, r.d, r.k + r.v)
\* The space a slot was allocated with: that of a record of the class.
CapOf(s, fmt) == RecSize(RecOf(Record(s.k, s.v, s.cap, FALSE), fmt), fmt)
PageOfState(p, no, fmt) ==
  LET pg == pages[p]
      slots == [i \in 1..Len(pg.slots) |-> [rec |-> RecOf(pg.slots[i], fmt), cap |-> CapOf(pg.slots[i], fmt)]]
      used == FoldLeft(LAMBDA a, s : a + s.cap - RecSize(s.rec, fmt), 0, slots)
  IN [no |-> no, space |-> TabOf.space, fmt |-> fmt, level |-> 0, index |-> TabOf.idx, maxtrx |-> Zeros(8),
      nb |-> LET o == At(order, p)   num(x) == IF x = 0 \/ x > Len(order) THEN NoPage ELSE U4(2 + order[x]) IN <<num(o - 1), num(o + 1)>>,
      slots |-> slots, live |-> pg.live, free |-> pg.free, lost |-> used, salt |-> no * 3 + Seed]

FmtOf(kind, p) == CASE kind = "C" -> "C" [] kind = "R" -> "R" [] OTHER -> IF p % 2 = 1 THEN "C" ELSE "R"
TableFile(kind) ==
  LET t == TabOf
  IN FilePages("t" \o kind, 3 + Len(pages), TabFile(t, [p \in 1..Len(pages) |-> PageOfState(p, 2 + p, FmtOf(kind, p))], Seed))
ExpectLive == Cat([p \in 1..Len(pages) |-> [i \in 1..Len(pages[p].live) |-> Replace(TabOf, RowOf(LiveRecs(p)[i]))]])
ExpectFree == Cat([p \in 1..Len(pages) |-> [i \in 1..Len(gone[p]) |-> Replace(TabOf, RowOf(gone[p][i]))]])
DictName == "dict" \o ToString(fl)

\* The dictionary is shared by all behaviours.
EmitDict == TLCSet(40 + fl, TRUE) /\ EmitShared([DictFileOf(<<TabOf>>, 1) EXCEPT !.n = DictName])

\* A number which spreads the states evenly.
Sig == FoldLeft(LAMBDA a, pg :
         FoldLeft(LAMBDA b, i : (b * 31 + i) % 10007,
           FoldLeft(LAMBDA b, s : (b * 37 + s.k * 11 + s.c * 5 + s.cap * 3 + (IF s.d THEN 7 ELSE 0)) % 10007, (a * 41 + 1) % 10007, pg.slots),
           pg.live \o <<9>> \o pg.free),
         Seed % 1000, pages)
Due == IF Every = 0 THEN Sig % Some = 0 ELSE show
HeapCase(id, files, runs) ==
  EmitCase([id |-> id \o "#", d |-> "heap of " \o ToString(Len(pages)) \o " pages after " \o ToString(n) \o " steps",
            files |-> <<Ref(DictName)>> \o files, runs |-> runs])
LiveRunOf(kind) == DataRun(DictName, "t" \o kind, TabOf, Live, ExpectLive)
FreeRunOf(kind) == DataRun(DictName, "t" \o kind, TabOf, Deleted, ExpectFree)
First == n = 0 /\ Len(pages) = 1 /\ pages[1].slots = <<>>
Emit01 == /\ First => EmitDict
          /\ Due => HeapCase("C01-heap-" \o ToString(fl), <<TableFile("C"), TableFile("R")>>, <<LiveRunOf("C"), LiveRunOf("R")>>)
Emit02 == /\ First => EmitDict
          /\ Due => HeapCase("C02-heap-" \o ToString(fl), <<TableFile("C"), TableFile("R")>>, <<FreeRunOf("C"), FreeRunOf("R")>>)
Emit11 == /\ First => EmitDict
          /\ Due => HeapCase("C11-heap-" \o ToString(fl), <<TableFile("C"), TableFile("R"), TableFile("M")>>,
                       <<LiveRunOf("C"), LiveRunOf("R"), LiveRunOf("M"), FreeRunOf("C"), FreeRunOf("R"), FreeRunOf("M")>>)
=============================================================================
