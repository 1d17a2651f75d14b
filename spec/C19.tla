-------------------------------- MODULE C19 --------------------------------
(***************************************************************************)
(* C19: damaged pages.  Good pages and damaged ones alternate in a table   *)
(* file.  A page is damaged in one byte, in a pointer, in a range of       *)
(* bytes, or completely.  Which records are reached before the damage is a *)
(* matter of the list that is read: those in front of the first record     *)
(* with a damaged byte.  Behind it nothing is determined, but that no      *)
(* record comes out twice and that the good pages are complete.            *)
(***************************************************************************)
EXTENDS Gen

Wide == TabS(<<Col(Str("x"), "varchar", 30, FALSE), ID, Col(Str("big"), "int", 8, FALSE), Col(Str("dt"), "datetime", 0, FALSE), Col(Str("d"), "double", 8, FALSE),
               Col(Str("ts"), "timestamp", 3, FALSE), Col(Str("tm"), "time", 0, FALSE), Col(Str("c"), "char", 10, FALSE), Col(Str("y"), "year", 1, FALSE),
               Col(Str("da"), "date", 0, FALSE), Col(Str("bl"), "blob", 2, FALSE), Col(Str("bi"), "bit", 6, FALSE), Col(Str("f"), "float", 4, FALSE),
               MbCol(Str("cm"), "charmb", 5, 4, FALSE), Col(Str("long"), "varchar", 300, FALSE)>>, <<2, 1>>)
Small == TabS(<<Col(Str("a"), "varchar", 20, TRUE), ID, Col(Str("b"), "int", 2, TRUE)>>, <<2>>)
Hidden == TabS(<<Col(Str("t"), "text", 2, FALSE), UCol(Str("n"), "int", 3, FALSE), Col(Str("vb"), "varbinary", 400, FALSE)>>, <<>>)
Tables == <<Wide, Small, Hidden>>
Row(sh, n) ==
  CASE sh = 1 -> [j \in 1..15 |->
         IF j # 2 /\ (n + j) % 4 = 0 /\ j > 2 THEN Null
         ELSE CASE j = 1 -> S(Str("x") \o Dig(n, 4)) [] j = 2 -> Id(n) [] j = 3 -> W(U8(n)) [] j = 4 -> T(<<2019, 1, 2, 3, 4, n % 60, 0>>)
                [] j = 5 -> F(<<1, 2, 3, 4, 5, 6, n % 100, 64>>) [] j = 6 -> T(<<2019, 12, 31, 23, 59, n % 60, 123, 0>>) [] j = 7 -> T(<<n % 2 = 0, 1, 2, 1 + (n % 59), 0>>)
                [] j = 8 -> S(Dig(n, 5)) [] j = 9 -> T(<<1950 + (n % 200)>>) [] j = 10 -> T(<<2019, 12, 1 + (n % 31)>>) [] j = 11 -> S(Str("blob") \o Dig(n, 4))
                [] j = 12 -> W(<<1, 2, 3, 4>> \o U2(n)) [] j = 13 -> F(<<1, 2, n % 200, 64>>) [] j = 14 -> S(Dig(n, 4)) [] j = 15 -> S(IF n % 3 = 0 THEN Rep(97 + (n % 20), 140) ELSE Str("long"))]
    [] sh = 2 -> <<S(Str("v") \o Dig(n, 4)), Id(n), W(U2(n))>>
    [] sh = 3 -> <<IF n % 5 = 0 THEN Null ELSE S(Str("text") \o Dig(n, 4)), W(U3(n)), IF n % 3 = 0 THEN Null ELSE S(Rep(n % 256, 1 + (n % 3) * 70))>>

(***************************************************************************)
(* A page of the given shape of lists; record i of page no is row no*50+i. *)
(***************************************************************************)
Lists == << <<<<1, 2, 4, 6, 7>>, <<3, 5>>>>, <<<<7, 4, 1, 3, 6>>, <<5, 2>>>>, <<<<1, 2, 3, 4, 5, 6, 7>>, <<>>>>, <<<<2>>, <<7, 1, 6, 3, 5, 4>>>> >>
NSlots == 7
Num(no, i) == (no % 180) * 50 + i
PageAt(sh, no, fmt, ls, salt) ==
  LeafPage(Tables[sh], no, fmt, Eval([i \in 1..NSlots |-> MkSlot(TabRec(Tables[sh], Row(sh, Num(no, i)), fmt, Contains(Lists[ls][2], i), salt + i), fmt)]),
           Lists[ls][1], Lists[ls][2], salt)
Stmt(sh, no, i) == Replace(Tables[sh], Row(sh, Num(no, i)))

\* slot with the byte at this offset: 0 before the heap, NSlots + 1 behind it
SlotAt(p, off) == LET st == SlotStarts(p)
                  IN IF off < st[1] THEN 0 ELSE IF off >= st[NSlots + 1] THEN NSlots + 1 ELSE CHOOSE i \in 1..NSlots : st[i] <= off /\ off < st[i + 1]
Origin(p, i) == SlotStarts(p)[i] + Len(p.slots[i].rec.x) + HdrLen(p.fmt)
ByteAt(ch, off) == IF off < Len(ch[1][2]) THEN ch[1][2][off + 1] ELSE IF off >= ch[2][1] THEN ch[2][2][off - ch[2][1] + 1] ELSE 0
Change(b, v) == CASE v = 1 -> (IF b = 0 THEN 128 ELSE 0) [] v = 2 -> (IF b = 255 THEN 127 ELSE 255) [] v = 3 -> (b + 1) % 256 [] v = 4 -> (b + 255) % 256
                  [] v = 5 -> (b + 128) % 256 [] v = 6 -> (b + 64) % 256 [] v = 7 -> (b + 192) % 256 [] OTHER -> (b + 16) % 256

(***************************************************************************)
(* Damage: [put: chunks written over the page, first: offset of the first  *)
(* damaged byte, last: the last one]; alone: only that link changed.       *)
(***************************************************************************)
Dmg(put) == [put |-> put, from |-> put[1][1], to |-> put[1][1] + Len(put[1][2]) - 1]
\* How many records of the list are reached: the damage must not touch them,
\* nor what leads to the first one.
Damaged(p, d, i) == \E off \in {d.from, d.to} : SlotAt(p, off) = i
                    \/ (d.from < SlotStarts(p)[i] /\ d.to >= SlotStarts(p)[i])
Reached(p, d, list) ==
  IF d.from < HeapStart(p.fmt) THEN 0
  ELSE LET bad == SelectSeq([j \in 1..Len(list) |-> j], LAMBDA j : Damaged(p, d, list[j]))
       IN IF bad = <<>> THEN Len(list) ELSE bad[1] - 1
\* System records lead to live records only.
SysOnly(p, d) == d.from >= 94 /\ d.to < HeapStart(p.fmt)

Targets == 0..21
\* Where a damaged link goes: an absolute offset, -1 for "as it is".
Target(p, i, x) ==
  CASE x = 0 -> 0 [] x = 1 -> Origin(p, i) [] x = 2 -> Infimum(p.fmt) [] x = 3 -> Supremum(p.fmt) [] x = 4 -> 1 [] x = 5 -> 38 [] x = 6 -> HeapStart(p.fmt)
    [] x = 7 -> PageSize - 1 [] x = 8 -> PageSize [] x = 9 -> PageSize + 1 [] x = 10 -> 32767 [] x = 11 -> 65535 [] x = 12 -> PageSize - 8 [] x = 13 -> SlotStarts(p)[NSlots + 1]
    [] x = 14 -> 5000 [] x = 15 -> PageSize - 20 [] x = 16 -> Origin(p, 1) [] x = 17 -> Origin(p, 3) [] x = 18 -> Origin(p, 5) [] x = 19 -> Origin(p, 7) [] x = 20 -> Origin(p, i) + 1 [] OTHER -> Origin(p, 4) - 1
LinkBytes(p, from, to) == U2(IF p.fmt = "C" THEN (to - from + 65536) % 65536 ELSE to)
LinkDmg(p, i, x) == Dmg(<<<<Origin(p, i) - 2, LinkBytes(p, Origin(p, i), Target(p, i, x))>>>>)
InfDmg(p, x) == Dmg(<<<<Infimum(p.fmt) - 2, LinkBytes(p, Infimum(p.fmt), Target(p, 1, x))>>>>)
FreeDmg(p, x) == Dmg(<<<<44, U2(Target(p, 1, x))>>>>)
ByteDmg(p, ch, off, v) == Dmg(<<<<off, <<Change(ByteAt(ch, off), v)>>>>>>)
\* Ranges: random bytes, zeros, ones.
RangeDmg(p, sd) == LET a == R(sd, 1, 6)
                       from == CASE a = 0 -> R(sd, 2, 700) [] a = 1 -> 38 + R(sd, 2, 100) [] OTHER -> HeapStart(p.fmt) + R(sd, 2, 600)
                       n == CASE R(sd, 3, 4) = 0 -> 1 + R(sd, 4, 8) [] R(sd, 3, 4) = 1 -> 1 + R(sd, 4, 60) [] OTHER -> 1 + R(sd, 4, 700)
                   IN Dmg(<<<<from, CASE R(sd, 5, 4) = 0 -> Zeros(n) [] R(sd, 5, 4) = 1 -> Rep(255, n) [] OTHER -> RBytes(sd, 6, n)>>>>)
\* All of a page behind what makes it look like a leaf.
WholeDmg(p, sd) ==
  LET body == CASE sd % 4 = 0 -> Rep(255, 4000) [] sd % 4 = 1 -> Noise(sd, 7, 3000) [] OTHER -> RBytes(sd, 8, 1500)
      hdr == U2(2) \o U2(8000) \o (IF R(sd, 9, 2) = 0 THEN <<128, 9>> ELSE <<0, 9>>) \o U2(100 + R(sd, 10, 1400)) \o U2(100) \o RBytes(sd, 11, 6) \o U2(1 + R(sd, 12, 9)) \o Zeros(8) \o Zeros(2)
  IN Dmg(<<<<24, U2(17855) \o RBytes(sd, 13, 12) \o hdr \o RBytes(sd, 14, 28) \o body>>>>)
\* The page number of another page.
NumDmg(p, no) == Dmg(<<<<4, U4(no)>>>>)

(***************************************************************************)
(* What the pages give.                                                    *)
(***************************************************************************)
ListOf(ls, mode) == IF mode = Live THEN Lists[ls][1] ELSE Lists[ls][2]
Good(sh, no, ls, mode) == LET l == ListOf(ls, mode) IN [j \in 1..Len(l) |-> Stmt(sh, no, l[j])]
Bad(sh, no, ls, p, d, mode) ==
  LET l == ListOf(ls, mode)
      n == IF mode = Deleted /\ SysOnly(p, d) THEN Len(l) ELSE Reached(p, d, l)
      rest == SelectSeq([i \in 1..NSlots |-> i], LAMBDA i : ~Contains(SubSeq(l, 1, n), i))
      first == [j \in 1..n |-> Stmt(sh, no, l[j])]
  IN IF n = Len(l) /\ (d.from >= HeapStart(p.fmt) \/ (mode = Deleted /\ SysOnly(p, d))) THEN first   \* nothing of what is read is damaged
     ELSE first \o <<[t |-> "any", max |-> 20000, rows |-> [j \in 1..Len(rest) |-> Stmt(sh, no, rest[j])], not |-> first]>>

VARIABLE st
Formats == {"C", "R"}
Base == [sh : 1..3, fmt : Formats, ls : 1..4]
Init == \/ st \in [ph : {"byte0", "link0", "range0", "whole0", "num0"}, b : Base]
        \/ st \in [ph : {"tail0"}, b : [sh : 1..3, fmt : Formats, ls : {2}]]
PageX(b, no, k) == PageAt(b.sh, no, b.fmt, b.ls, Seed + no * 3 + k)
Tails == {0, 1, 37, 38, 74, 94, 120, 512, 4096, 8192, 16383}
\* One byte after another, the heap and what precedes it.
Chunk == 8
HeapEnd(b) == SlotStarts(PageX(b, 5, 0))[NSlots + 1]
Offsets(b) == HeapEnd(b)
Next ==
  \/ /\ st.ph = "byte0"
     /\ \E c \in 0..(Offsets(st.b) \div Chunk), v \in 1..8 :
           /\ (Deep = 0) => ((c + v + st.b.ls) % 4 = 0 \/ (st.b.sh = 2 /\ st.b.ls = 1))
           /\ st' = [ph |-> "byte", b |-> st.b, c |-> c, v |-> v]
  \/ /\ st.ph = "link0"
     /\ \E c \in Targets, v \in {0} : st' = [ph |-> "link", b |-> st.b, c |-> c, v |-> v]
  \/ /\ st.ph = "range0"
     /\ \E c \in 1..(IF Deep = 1 THEN 300 ELSE 12), v \in {0} : st' = [ph |-> "range", b |-> st.b, c |-> c, v |-> v]
  \/ /\ st.ph = "whole0"
     /\ \E c \in 1..(IF Deep = 1 THEN 100 ELSE 6), v \in {0} : st' = [ph |-> "whole", b |-> st.b, c |-> c, v |-> v]
  \/ /\ st.ph = "num0"
     /\ \E c \in 1..6, v \in {0} : st' = [ph |-> "num", b |-> st.b, c |-> c, v |-> v]
\* Files which end within a page: after how many whole pages, after how many
\* bytes; the table file, the dictionary, both.
  \/ /\ st.ph = "tail0"
     /\ \E c \in 0..7, v \in Tails : st' = [ph |-> "tail", b |-> st.b, c |-> c, v |-> v]
Active == st.ph \in {"byte", "link", "range", "whole", "num"}
\* The damages of a case, one per damaged page; the k-th damaged page has number 2 + 2 * k.
NoOf(k) == 2 + 2 * k
ND(s) == IF s.ph = "link" THEN NSlots + 2 ELSE IF s.ph = "num" THEN 3 ELSE 8
DmgOf(s, k, p, ch) ==
  LET sd == Seed * 1013 + s.c * 97 + k * 7 + s.b.ls * 1000 + s.b.sh * 31
  IN CASE s.ph = "byte" -> ByteDmg(p, ch, s.c * Chunk + k - 1, s.v)
       [] s.ph = "link" -> IF k <= NSlots THEN LinkDmg(p, k, s.c) ELSE IF k = NSlots + 1 THEN InfDmg(p, s.c) ELSE FreeDmg(p, s.c)
       [] s.ph = "range" -> RangeDmg(p, sd)
       [] s.ph = "whole" -> WholeDmg(p, sd)
       \* the number of the good page in front, of the one behind, of one which does not exist, ...
       [] s.ph = "num" -> NumDmg(p, CASE s.c = 1 -> NoOf(k) - 1 [] s.c = 2 -> NoOf(k) + 1 [] s.c = 3 -> NoOf(k) + 3 [] s.c = 4 -> 500 [] s.c = 5 -> 3 [] OTHER -> 2)
Name(s) == "C19-" \o s.ph \o "-" \o ToString(s.b.sh) \o s.b.fmt \o ToString(s.b.ls) \o "-" \o ToString(s.c) \o "-" \o ToString(s.v)
Case(s) ==
  LET n == ND(s)
      t == Tables[s.b.sh]
      good(no) == PageAt(s.b.sh, no, s.b.fmt, 1 + (no % 2), Seed + no)
      ps == Eval([k \in 1..n |-> PageX(s.b, NoOf(k), s.c)])
      chs == Eval([k \in 1..n |-> PageChunks(ps[k])])
      ds == Eval([k \in 1..n |-> DmgOf(s, k, ps[k], chs[k])])
      bad(k) == chs[k] \o ds[k].put
      pages == <<PageChunks(good(3))>> \o Cat([k \in 1..n |-> <<bad(k), PageChunks(good(NoOf(k) + 1))>>])
      exp(mode) == Good(s.b.sh, 3, 2, mode) \o Cat([k \in 1..n |-> Bad(s.b.sh, NoOf(k), s.b.ls, ps[k], ds[k], mode) \o Good(s.b.sh, NoOf(k) + 1, 2, mode)])
      \* sometimes the file ends in the middle of a page
      cut == IF s.c % 5 = 3 THEN [size |-> (3 + Len(pages)) * PageSize + 1 + R(Seed, s.c, PageSize - 1)] ELSE <<>>
  IN [id |-> Name(s), d |-> "damaged pages between good ones",
      files |-> <<DictFileOf(<<t>>, Seed), FilePages("t.ibd", 3 + Len(pages), FileChunks(TabHead(t, Seed) \o pages)) @@ cut>>,
      runs |-> <<DataRun("ibdata1", "t.ibd", t, Live, exp(Live)), DataRun("ibdata1", "t.ibd", t, Deleted, exp(Deleted))>>]
TailCase(s) ==
  LET t == Tables[s.b.sh]
      good(no) == PageAt(s.b.sh, no, s.b.fmt, 1 + (no % 2), Seed + no)
      pages == [k \in 1..(s.c + 1) |-> PageChunks(good(2 + k))]
      ls(no) == 1 + (no % 2)
      exp(mode) == Cat([k \in 1..s.c |-> Good(s.b.sh, 2 + k, ls(2 + k), mode)])
                   \o (IF s.v < 120 THEN <<>> ELSE <<[t |-> "any", max |-> 20000, rows |-> Good(s.b.sh, 3 + s.c, ls(3 + s.c), mode), not |-> <<>>]>>)
      dict == DictFileOf(<<t>>, Seed)
      extra == (s.c + s.b.sh) % 3
  IN [id |-> Name(s), d |-> "files which end within a page",
      files |-> <<IF extra = 2 THEN dict ELSE [size |-> (dict.nu + extra) * PageSize + s.v] @@ dict,
                  [size |-> (3 + s.c) * PageSize + s.v] @@ FilePages("t.ibd", 3 + s.c, FileChunks(TabHead(t, Seed) \o pages))>>,
      runs |-> <<DataRun("ibdata1", "t.ibd", t, Live, exp(Live)), DataRun("ibdata1", "t.ibd", t, Deleted, exp(Deleted))>>]
Emit == CASE Active -> EmitCase(Case(st)) [] st.ph = "tail" -> EmitCase(TailCase(st)) [] OTHER -> TRUE
\* What the damage leaves: at least the records in front of it are not touched by it.
Intact == Active =>
  \A k \in {1 + (st.c % ND(st))} :
    LET p == PageX(st.b, NoOf(k), st.c)  d == DmgOf(st, k, p, PageChunks(p))
    IN \A mode \in {Live, Deleted} : LET l == ListOf(st.b.ls, mode)
         IN \A j \in 1..Reached(p, d, l) : d.to < SlotStarts(p)[l[j]] \/ d.from >= SlotStarts(p)[l[j] + 1]
=============================================================================
