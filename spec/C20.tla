-------------------------------- MODULE C20 --------------------------------
(***************************************************************************)
(* C20: failed input is reported.  A state is a kind of input for each of  *)
(* the files, a name of the requested table, and a command.  Whether the   *)
(* command has to fail is a predicate on the state; if it does not, the    *)
(* statements are determined, and when there are none it is silent.        *)
(***************************************************************************)
EXTENDS Redo

TA == TabS(<<ID, Col(Str("a"), "varchar", 40, FALSE)>>, <<1>>)
TB2 == Tab(41, 24, Str("shop2"), Str("other"), <<Col(Str("x"), "int", 4, TRUE), ID>>, <<2>>)
RowA(n) == <<Id(n), IF n % 3 = 0 THEN Null ELSE S(Str("v") \o Dig(n, 3))>>

(***************************************************************************)
(* System files.                                                           *)
(***************************************************************************)
Dict0 == SimpleDict(<<TA, TB2>>, Seed)
\* without the pages of a set (page numbers)
Without(chunks, nos) == SelectSeq(chunks, LAMBDA c : c[1] \notin nos)
\* a page becomes an unrelated one
Overlay(chunks, no, typ) == Without(chunks, {no}) \o << <<no, 0, FilHdr(no, NoPage, NoPage, typ, Zeros(4), Seed) \o Noise(Seed, 3, 300)>> >>
PlainText == Cat([i \in 1..60 |-> Str("this is no tablespace ") \o <<10>>])
\* nothing there, a directory, a link to itself, a link to nothing, a path below a file, the empty path
NoFile == {"missing", "dir", "loop", "dangling", "under", "nameless"}
SysKinds == {"good", "missing", "dir", "loop", "dangling", "under", "nameless", "empty", "text", "zeros", "short", "nohdr", "notables", "nocolumns", "noindexes", "nofields", "header-only", "table", "log", "typed", "half", "unset", "tiny",
             "onetree", "roots0", "rootsmax", "beyond", "noise", "rows", "nulls"}
\* another page of the roots' kind
Root(chunks, no, index, body) == Without(chunks, {no}) \o << <<no, 0, FilHdr(no, NoPage, NoPage, 17855, Zeros(4), Seed) \o body>> >>
IndexNoise(i) == U2(2) \o U2(2000) \o U2(10) \o Zeros(4) \o RBytes(Seed, 70 + i, 6) \o U2(8) \o Zeros(8) \o Zeros(2) \o U8(i) \o Zeros(20) \o RBytes(Seed, 80 + i, 2500)
At(no, page) == [j \in 1..Len(page) |-> <<no, page[j][1], page[j][2]>>]
Header(roots) == Without(Dict0, {7}) \o At(7, DictHeader(roots, Seed))
\* the rows of a user's table in the place of the dictionary's
UserRows(no, index) == DictPage(no, index, 0, [i \in 1..6 |-> <<DField(U4(i))>> \o DTrx(i) \o <<DField(Str("v") \o Dig(i, 3)), DNull>>], no)
NullRows(no, index, n) == DictPage(no, index, 0, [i \in 1..3 |-> [j \in 1..n |-> IF i = 1 /\ j # 2 THEN DField(Str("shop/t")) ELSE DNull]], no)
SysFile(k) ==
  CASE k = "good" -> FilePages("sys", SimpleDictPages, Dict0)
    [] k \in NoFile -> [n |-> "sys", kind |-> k]
    [] k = "empty" -> [n |-> "sys", u |-> 1, nu |-> 0, c |-> <<>>]
    [] k = "tiny" -> [n |-> "sys", u |-> 1, nu |-> 1, c |-> <<<<0, 0, <<65>>>>>>]
    [] k = "text" -> [n |-> "sys", u |-> 1, nu |-> Len(PlainText), c |-> <<<<0, 0, PlainText>>>>]
    [] k = "zeros" -> FilePages("sys", 16, <<>>)
    [] k = "short" -> FilePages("sys", 5, SelectSeq(Dict0, LAMBDA c : c[1] < 5))
    [] k = "half" -> FilePages("sys", 9, SelectSeq(Dict0, LAMBDA c : c[1] < 9))
    [] k = "nohdr" -> FilePages("sys", SimpleDictPages, Without(Dict0, {7}))
    [] k = "notables" -> FilePages("sys", SimpleDictPages, Without(Dict0, {8}))
    [] k = "nocolumns" -> FilePages("sys", SimpleDictPages, Without(Dict0, {10}))
    [] k = "noindexes" -> FilePages("sys", SimpleDictPages, Without(Dict0, {11}))
    [] k = "nofields" -> FilePages("sys", SimpleDictPages, Without(Dict0, {12}))
    [] k = "header-only" -> FilePages("sys", SimpleDictPages, Without(Dict0, {8, 10, 11, 12}))
    \* the roots hold other pages
    [] k = "typed" -> FilePages("sys", SimpleDictPages, Overlay(Overlay(Overlay(Overlay(Dict0, 8, 2), 10, 3), 11, 10), 12, 6))
    \* the header tells roots which are none
    [] k = "onetree" -> FilePages("sys", SimpleDictPages, Header(<<8, 8, 8, 8>>))
    [] k = "roots0" -> FilePages("sys", SimpleDictPages, Header(<<0, 0, 0, 0>>))
    [] k = "rootsmax" -> FilePages("sys", SimpleDictPages, Without(Dict0, {7}) \o At(7, OtherPage(7, Zeros(4), 6, Rep(255, 60), Seed)))
    [] k = "beyond" -> FilePages("sys", SimpleDictPages, Header(<<5008, 5010, 5011, 5012>>))
    \* the roots are index pages, but hold no rows of the dictionary
    [] k = "noise" -> FilePages("sys", SimpleDictPages, Root(Root(Root(Root(Dict0, 8, 1, IndexNoise(1)), 10, 2, IndexNoise(2)), 11, 3, IndexNoise(3)), 12, 4, IndexNoise(4)))
    [] k = "rows" -> FilePages("sys", SimpleDictPages, Without(Dict0, {8, 10, 11, 12}) \o At(8, PageChunks(UserRows(8, 1))) \o At(10, PageChunks(UserRows(10, 2))) \o At(11, PageChunks(UserRows(11, 3))) \o At(12, PageChunks(UserRows(12, 4))))
    [] k = "nulls" -> FilePages("sys", SimpleDictPages, Without(Dict0, {8, 10, 11, 12}) \o At(8, PageChunks(NullRows(8, 1, 10))) \o At(10, PageChunks(NullRows(10, 2, 9))) \o At(11, PageChunks(NullRows(11, 3, 9))) \o At(12, PageChunks(NullRows(12, 4, 5))))
    [] k = "table" -> [TabFileOf(TA, RowsPages(TA, 3, "C", <<RowA(1)>>, Seed), Seed) EXCEPT !.n = "sys"]
    [] k = "log" -> LogFile("sys", <<Marker(1)>>, Seed)
    [] k = "unset" -> [n |-> "sys", kind |-> "missing"]
SysOk(k) == k = "good"

(***************************************************************************)
(* Table files, and logs.                                                  *)
(***************************************************************************)
TabKinds == {"rows", "missing", "dir", "loop", "dangling", "under", "nameless", "none", "nodead", "noleaf", "headonly"}
TabFileK(k) ==
  CASE k = "rows" -> TabFileOf(TA, RowsPages(TA, 3, "C", <<RowA(1), RowA(2), RowA(3)>>, Seed), Seed)
    [] k = "nodead" -> TabFileOf(TA, RowsPages(TA, 3, "R", <<RowA(5), RowA(6)>>, Seed), Seed)
    [] k = "none" -> TabFileOf(TA, RowsPages(TA, 3, "C", <<>>, Seed), Seed)
    [] k = "noleaf" -> FilePages("t.ibd", 5, FileChunks(TabHead(TA, Seed) \o <<OtherPage(3, TA.space, 2, Noise(Seed, 1, 100), Seed), <<>>>>))
    [] k = "headonly" -> FilePages("t.ibd", 3, FileChunks(TabHead(TA, Seed)))
    [] k \in NoFile -> [n |-> "t.ibd", kind |-> k]
TabFails(k) == k \in NoFile
RowsOf(k, mode) == IF mode = Deleted THEN <<>> ELSE CASE k = "rows" -> <<1, 2, 3>> [] k = "nodead" -> <<5, 6>> [] OTHER -> <<>>
Names == << <<"shop", "t">>, <<"shop", "T">>, <<"Shop", "t">>, <<"shop2", "t">>, <<"shop", "other">>, <<"shop2", "other">>, <<"shop", "">>, <<"", "t">>, <<"", "">>, <<"sho", "t">>,
            <<"shop", "tt">>, <<"", "shop/t">>, <<"shop/t", "">>, <<"t", "shop">>, <<"x", "y">>,
            <<"shop", "t ">>, <<"shop", " t">>, <<" shop", "t">>, <<"shop ", "t">>, <<"shop", "shop.t">>, <<"shop", "%">>, <<"shop", "shop/t">>, <<"%", "%">> >>
NameOk(i) == i = 1

LogKinds == {"updates", "missing", "dir", "loop", "dangling", "under", "nameless", "inserts", "blank", "second-missing", "first-missing", "second-dir", "three",
             "second-missing-updates", "first-missing-updates", "second-dir-updates", "second-nameless-updates", "first-nameless-updates",
             "cut-0", "cut-1", "cut-100", "cut-511", "cut-512", "cut-1000", "cut-2047"}
CutAt(k) == CASE k = "cut-0" -> 0 [] k = "cut-1" -> 1 [] k = "cut-100" -> 100 [] k = "cut-511" -> 511 [] k = "cut-512" -> 512 [] k = "cut-1000" -> 1000 [] k = "cut-2047" -> 2047 [] OTHER -> -1
\* <<files, names given>>
LogsK(k) ==
  LET ups == <<Marker(1), Marker(2)>>
      none == <<UpdItemO(TU, URow(1), <<<<2, Null>>>>, [Opt0 EXCEPT !.typ = InsertRec, !.cmpl = 0]), Plain(<<MultiEnd>>), Plain(RecHead(1, TRUE, U4(3), U4(4)) \o U2(40) \o Comp(7))>>
  IN CASE k = "updates" -> << <<LogFile("l0", ups, Seed)>>, <<"l0">> >>
       [] k = "inserts" -> << <<LogFile("l0", none, Seed)>>, <<"l0">> >>
       [] k = "blank" -> << <<LogFile("l0", <<>>, Seed)>>, <<"l0">> >>
       [] k \in NoFile -> << <<[n |-> "l0", kind |-> k]>>, <<"l0">> >>
       [] k = "second-missing" -> << <<LogFile("l0", none, Seed), [n |-> "l1", kind |-> "missing"]>>, <<"l0", "l1">> >>
       [] k = "second-dir" -> << <<LogFile("l0", none, Seed), [n |-> "l1", kind |-> "dir"]>>, <<"l0", "l1">> >>
       [] k = "first-missing" -> << <<[n |-> "l0", kind |-> "missing"], LogFile("l1", none, Seed)>>, <<"l0", "l1">> >>
       [] k = "second-missing-updates" -> << <<LogFile("l0", ups, Seed), [n |-> "l1", kind |-> "missing"]>>, <<"l0", "l1">> >>
       [] k = "second-dir-updates" -> << <<LogFile("l0", ups, Seed), [n |-> "l1", kind |-> "dir"]>>, <<"l0", "l1">> >>
       [] k = "second-nameless-updates" -> << <<LogFile("l0", ups, Seed), [n |-> "l1", kind |-> "nameless"]>>, <<"l0", "l1">> >>
       [] k = "first-nameless-updates" -> << <<[n |-> "l0", kind |-> "nameless"], LogFile("l1", ups, Seed)>>, <<"l0", "l1">> >>
       [] k = "first-missing-updates" -> << <<[n |-> "l0", kind |-> "missing"], LogFile("l1", ups, Seed)>>, <<"l0", "l1">> >>
       \* the file ends inside its own header
       [] CutAt(k) >= 0 -> << <<[size |-> CutAt(k)] @@ LogFile("l0", ups, Seed)>>, <<"l0">> >>
       [] k = "three" -> << <<LogFile("l0", none, Seed), LogFile("l1", none, Seed), LogFile("l2", none, Seed)>>, <<"l0", "l1", "l2">> >>
LogFails(k) == CutAt(k) >= 0 \/ k \in NoFile \cup {"second-missing", "first-missing", "second-dir", "second-missing-updates", "first-missing-updates", "second-dir-updates", "second-nameless-updates", "first-nameless-updates"}
LogExp(k) == IF k = "updates" THEN ExpOf(<<Marker(1), Marker(2)>>) ELSE <<>>
\* with the table of the markers
DictU == SimpleDict(<<TA, [TU EXCEPT !.id = U8(77), !.name = Str("u")], TB2>>, Seed)
SysFileU(k) == IF k = "good" THEN FilePages("sys", SimpleDictPages, SimpleDict(<<TU, TB2>>, Seed)) ELSE SysFile(k)

(***************************************************************************)
(* A damaged dictionary: one byte of its pages is changed, or a range.     *)
(* Which tables are still there is not determined, but the tool ends       *)
(* without crashing.                                                       *)
(***************************************************************************)
HurtDict == [FilePages("hurt0", SimpleDictPages, SelectSeq(SimpleDict(<<TU, TB2>>, Seed), LAMBDA c : c[1] >= 7)) EXCEPT !.n = "hurt0"]
HurtTab == [TabFileOf(TU, RowsPages(TU, 3, "C", [i \in 1..3 |-> [URow(i) EXCEPT ![2] = S(Dig(i, 2))]], Seed), Seed) EXCEPT !.n = "hurt1"]
HurtLog == LogFile("hurt2", [i \in 1..4 |-> Marker(i)], Seed)
HurtPages == {7, 8, 10, 11, 12}
HurtChunk == 8
HurtLen(no) == LET c == SelectSeq(HurtDict.c, LAMBDA x : x[1] = no)[1] IN Len(c[3])
HurtByte(no, off) == LET c == SelectSeq(HurtDict.c, LAMBDA x : x[1] = no)[1] IN c[3][off + 1]
HurtChange(b, v) == CASE v = 1 -> (b + 1) % 256 [] v = 2 -> (b + 128) % 256 [] v = 3 -> (IF b = 0 THEN 255 ELSE 0) [] v = 4 -> (b + 255) % 256 [] v = 5 -> (b + 64) % 256
                      [] v = 6 -> (IF b = 255 THEN 0 ELSE 255) [] v = 7 -> (b + 32) % 256 [] OTHER -> (b * 7 + 77) % 256
\* v = 9, 10: a range of random bytes, of zeros
HurtFile(no, off, v, k) ==
  [n |-> "sys" \o ToString(k), ref |-> "hurt0", copy |-> TRUE,
   c |-> << <<no, off, CASE v = 9 -> RBytes(Seed + off, no, 2 + (off % 60)) [] v = 10 -> Zeros(1 + (off % 90)) [] OTHER -> <<HurtChange(HurtByte(no, off), v)>> >> >>]
HurtCase(s) ==
  LET offs == [k \in 1..Min2(HurtChunk, HurtLen(s.no) - s.c * HurtChunk) |-> s.c * HurtChunk + k - 1]
  IN [id |-> "C20-hurt-" \o ToString(s.no) \o "-" \o ToString(s.c) \o "-" \o ToString(s.v), d |-> "damaged dictionary",
      files |-> [k \in 1..Len(offs) |-> HurtFile(s.no, offs[k], s.v, k)] \o << [n |-> "t.ibd", ref |-> "hurt1"], [n |-> "l0", ref |-> "hurt2"] >>,
      runs |-> Cat([k \in 1..Len(offs) |-> << [cmd |-> "data", sys |-> "sys" \o ToString(k), file |-> "t.ibd", db |-> DB, tab |-> TB, out |-> "nocrash", exp |-> <<>>, lvl |-> "default"],
                                              [cmd |-> "redo", sys |-> "sys" \o ToString(k), redo |-> <<"l0">>, out |-> "nocrash", exp |-> <<>>, lvl |-> "default"] >>])]
NextHurt(s, s2) ==
  \E v \in 1..10, c \in 0..((HurtLen(s.no) - 1) \div HurtChunk) :
     /\ Deep = 0 => (v + c) % 4 = 0
     /\ s2 = [ph |-> "hurt", no |-> s.no, c |-> c, v |-> v]

VARIABLE st
Levels == {"default", "error", "info", "trace"}
Init == \/ st \in [ph : {"hurt0"}, no : HurtPages]
        \/ st \in [ph : {"sys"}, sys : SysKinds]
Next == \/ st.ph = "hurt0" /\ NextHurt(st, st')
        \/ /\ st.ph = "sys"
           /\ \/ \E tab \in TabKinds, nm \in 1..Len(Names), mode \in {Live, Deleted, "PrintData"} :
                   /\ nm # 6    \* the other table, which the file is not of
                   /\ (st.sys # "good" => (nm \in {1, 15} \/ Deep = 1))
                   /\ st' = [ph |-> "data", sys |-> st.sys, tab |-> tab, nm |-> nm, mode |-> mode]
              \/ \E tab \in LogKinds, nm \in 1..Len(Names), mode \in {"", Deleted, "PrintData"} :
                   /\ (mode # "" => (nm \in {1, 7} /\ st.sys \in {"good", "missing"}))
                   /\ (st.sys # "good" => (nm \in {1, 9} \/ Deep = 1))
                   /\ st' = [ph |-> "redo", sys |-> st.sys, tab |-> tab, nm |-> nm, mode |-> mode]
Failing(s) == IF s.ph = "data" THEN ~SysOk(s.sys) \/ TabFails(s.tab) \/ ~NameOk(s.nm) ELSE ~SysOk(s.sys) \/ LogFails(s.tab)
Exp20(s) == IF Failing(s) THEN <<>>
            ELSE IF s.ph = "data" THEN LET l == RowsOf(s.tab, s.mode) IN [i \in 1..Len(l) |-> Replace(TA, RowA(l[i]))]
            ELSE LET n == Names[s.nm] IN IF (n[1] = "" \/ n[1] = "shop") /\ (n[2] = "" \/ n[2] = "t") THEN LogExp(s.tab) ELSE <<>>
Name(s) == "C20-" \o s.ph \o "-" \o s.sys \o "-" \o s.tab \o "-" \o ToString(s.nm) \o s.mode
Case(s) ==
  LET out == IF Failing(s) THEN "diag" ELSE IF Exp20(s) = <<>> THEN "silent" ELSE "exact"
      n == Names[s.nm]
      base(lvl) == [cmd |-> s.ph, sys |-> "sys", db |-> Str(n[1]), tab |-> Str(n[2]), out |-> out, exp |-> Exp20(s), lvl |-> lvl]
      run(lvl) == IF s.ph = "data" THEN base(lvl) @@ [file |-> "t.ibd", mode |-> s.mode] ELSE base(lvl) @@ [redo |-> LogsK(s.tab)[2], mode |-> s.mode]
      \* what is reported depends on the level; statements do not
  IN [id |-> Name(s), d |-> "inputs " \o s.sys \o ", " \o s.tab \o ", table " \o n[1] \o "." \o n[2],
      files |-> IF s.ph = "data" THEN <<SysFile(s.sys), TabFileK(s.tab)>> ELSE <<SysFileU(s.sys)>> \o LogsK(s.tab)[1],
      runs |-> IF out = "diag" THEN <<run("default"), [run("trace") EXCEPT !.out = "diag"]>>
               ELSE <<run("default"), run(""), run("trace")>>]
Active == st.ph \in {"data", "redo"}
Emit == CASE st.ph = "hurt0" -> (st.no = 7 => EmitShared(HurtDict) /\ EmitShared(HurtTab) /\ EmitShared(HurtLog))
          [] st.ph = "hurt" -> EmitCase(HurtCase(st))
          [] Active -> EmitCase(Case(st))
          [] OTHER -> TRUE
\* Failure and results exclude each other.
Excl == Active => (Failing(st) => Exp20(st) = <<>>)
=============================================================================
