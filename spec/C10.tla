-------------------------------- MODULE C10 --------------------------------
(***************************************************************************)
(* C10: statements are well-formed and carry any bytes.  A state is a text *)
(* type, a place in the table and a class of contents: every byte alone, a *)
(* special byte next to every byte, runs, random strings, and things that  *)
(* look like SQL or escape sequences.                                      *)
(***************************************************************************)
EXTENDS Redo

Specials == <<0, 8, 9, 10, 13, 26, 27, 34, 37, 39, 92, 95, 96, 127, 128, 195, 224, 226, 240, 254, 255>>
ColTypes == {<<"varchar", 200, 1>>, <<"varbinary", 400, 1>>, <<"char", 60, 1>>, <<"binary", 60, 1>>, <<"text", 2, 1>>, <<"blob", 2, 1>>,
             <<"varchar", 7950, 1>>, <<"varbinary", 7950, 1>>, <<"charmb", 60, 4>>, <<"charmb", 60, 1>>, <<"varcharmb", 60, 4>>}
ASC(s) == Str(s)
Tricky == <<
  <<39>>, <<39, 39>>, <<92>>, <<92, 92>>, <<92, 39>>, <<39, 92>>, <<92, 110>>, <<92, 48>>, <<92, 90>>, <<92, 37>>, <<92, 95>>, <<34>>, <<34, 34>>,
  ASC("a") \o <<39>> \o ASC(",") \o <<39>> \o ASC("b"), <<39>> \o ASC("); drop table t; -- "), ASC("-- "), ASC("#"), ASC("/*"), ASC("*/"),
  ASC("%s"), ASC("%d%v%%"), ASC("%!s(MISSING)"), <<37, 39>>, ASC("NULL"), ASC("null"), <<39>> \o ASC("NULL") \o <<39>>, ASC("0x41"), ASC("b") \o <<39>> \o ASC("1") \o <<39>>,
  ASC("x") \o <<39, 52, 49, 39>>, ASC("1"), ASC("-1"), ASC("1e5"), ASC("true"), <<13, 10>>, <<10, 13>>, <<10>>, <<10, 10>>, <<0, 0>>, <<0, 48>>, <<26, 26>>,
  <<226, 128, 168>>, <<226, 128, 169>>, <<194, 133>>, <<239, 187, 191>>, <<239, 191, 189>>, <<195>>, <<195, 40>>, <<226, 130>>, <<240, 159, 152>>, <<192, 128>>,
  <<237, 160, 128>>, <<244, 144, 128, 128>>, <<191, 39>>, <<223, 92>>, <<223, 39>>, <<129, 92>>, ASC("`t`"), ASC("`"), ASC(";"), ASC("update `a` set `b`=1;"),
  ASC("replace into `shop`.`t` values (1);"), <<10>> \o ASC("replace into `shop`.`t` values (1);"), ASC("a") \o <<9>> \o ASC("b"), <<27>> \o ASC("[31m"), <<92, 116>>,
  <<92, 92, 39>>, <<92, 92, 92>>, <<39, 39, 39>>, <<39, 32, 39>>, <<34, 39, 34>>, ASC("Y") \o <<39>> \o ASC("s"), <<7>>, <<11>>, <<12>>, <<31>>, <<127>>,
  ASC("0001-01-01T00:00:00Z"), ASC("0001-01-01 00:00:00"), ASC("0000-00-00 00:00:00"), ASC("0000-00-00"), ASC("<nil>"), ASC("%!v(MISSING)"), ASC("[]"), ASC("{}"),
  ASC("unhex(") \o <<39, 52, 49, 39>> \o ASC(")"), ASC("b") \o <<39, 49, 39>>, ASC("NaN"), ASC("+Inf"), ASC("0"), ASC("00"), ASC("-0"), ASC("default"), ASC("DB_ROW_ID")>>

\* Long values: a special byte everywhere, only at the end, and rarely
LongLens == <<255, 256, 257, 511, 1000, 1023, 1024, 2047, 2048, 4094, 4095, 4096, 4097, 5000, 6000, 7000, 7900>>
LongVal(n, x) == [j \in 1..n |-> CASE x = 1 -> Specials[1 + (j % Len(Specials))]
                                   [] x = 2 -> IF j = n THEN 39 ELSE 97
                                   [] x = 3 -> IF j = n THEN 92 ELSE (j * 7) % 256
                                   [] OTHER -> IF R(Seed, j, 50) = 0 THEN Specials[1 + (j % Len(Specials))] ELSE 98]
\* Byte strings of a class.
Strings(cl) ==
  CASE cl[1] = "single" -> [i \in 1..256 |-> <<i - 1>>]
    [] cl[1] = "between" -> [i \in 1..256 |-> <<97, i - 1, 98>>]
    [] cl[1] = "end" -> [i \in 1..256 |-> <<97, 98, i - 1>>]
    [] cl[1] = "tricky" -> Tricky
    [] cl[1] = "all" -> << [i \in 1..20 |-> i - 1], [i \in 1..20 |-> 20 + i], [i \in 1..20 |-> 256 - i], [i \in 1..20 |-> 120 + i] >>
    [] cl[1] = "random" -> [i \in 1..150 |-> LET n == 1 + R(Seed, i, 20) IN [j \in 1..n |-> IF R(Seed + i, j, 2) = 0 THEN Specials[1 + R(Seed + i, 100 + j, Len(Specials))] ELSE R(Seed + i, 200 + j, 256)]]
    [] cl[1] = "special" -> Cat([i \in 1..256 |-> << <<Specials[cl[2]], i - 1>>, <<i - 1, Specials[cl[2]]>> >>])
    [] cl[1] = "long" -> [i \in 1..(Len(LongLens) * 4) |-> LongVal(LongLens[1 + ((i - 1) % Len(LongLens))], 1 + ((i - 1) \div Len(LongLens)))]
    [] cl[1] = "pair" -> [i \in 1..256 |-> <<cl[2], i - 1>>]

RECURSIVE Trim(_)
Trim(b) == IF b # <<>> /\ b[Len(b)] = 32 THEN Trim(SubSeq(b, 1, Len(b) - 1)) ELSE b

(***************************************************************************)
(* Names.  A column can be called nearly anything (valid UTF-8 of up to 64 *)
(* characters); the names of databases and tables are stored in the        *)
(* server's filename encoding, or as they are behind #mysql50#.            *)
(***************************************************************************)
ColNames == <<ASC("`"), ASC("``"), ASC("a`b"), ASC("`a"), ASC("a`"), ASC("`,`"), ASC("a`=1,`b"), <<39>>, <<97, 39, 98>>, <<92>>, <<97, 92, 39>>, <<34>>, ASC("a b"), <<32, 97>>, ASC("a.b"), ASC(";"), ASC("-- ") \o <<97>>,
  ASC("%s"), ASC("%d%%"), ASC("NULL"), ASC("select"), ASC("where"), ASC("set"), ASC("1"), ASC("1e1"), ASC("A"), ASC("$a"), ASC("#"), ASC("/*"), ASC("@a"), <<9>>, <<97, 9, 98>>, <<1>>, <<127>>,
  <<195, 169>>, <<228, 184, 173, 230, 150, 135>>, <<194, 160>>, <<226, 128, 168>>, ASC("DB_TRX"), ASC("DB_ROW_ID2"), ASC("PRIMARY"), ASC("id2"), ASC("FTS_DOC_IDX"),
  Rep(97, 64), Cat([i \in 1..64 |-> <<226, 130, 172>>]), Cat([i \in 1..40 |-> <<195, 169>>]), Rep(96, 64), Cat([i \in 1..42 |-> <<226, 130, 172>>]) \o <<97>>, Cat([i \in 1..42 |-> <<226, 130, 172>>]) \o <<97, 98>>>>
FileNames == <<ASC("a@0060b"), ASC("@4e2d@6587"), ASC("t#P#p0"), ASC("t#P#p1#SP#s0"), ASC("#mysql50#a-b"), ASC("#mysql50#a`b"), ASC("$t"), ASC("1"), ASC("T"), ASC("_"), ASC("#sql-ib23-1"), Rep(116, 64),
  Cat([i \in 1..64 |-> ASC("@4e2d")]), Cat([i \in 1..25 |-> ASC("@4e2d")]), ASC("PRIMARY"), ASC("ab@002fc"), ASC("%s"), ASC("SYS_TABLES")>>
NamePlaces == {"col", "key", "both", "tab", "db", "names"}
NamesOf(pl) == IF pl \in {"col", "key", "both"} THEN ColNames ELSE FileNames
NameTab(pl, i) ==
  LET nm == NamesOf(pl)[i]
      other == NamesOf(pl)[1 + (i % Len(NamesOf(pl)))]
      c(n, k, w) == Col(n, k, w, FALSE)
      t == CASE pl = "col" -> TabS(<<ID, c(nm, "varchar", 30), c(Str("zz"), "int", 2)>>, <<1>>)
             [] pl = "key" -> TabS(<<c(Str("yy"), "varchar", 30), [ID EXCEPT !.n = nm], c(Str("zz"), "int", 2)>>, <<2>>)
             [] pl = "both" -> TabS(<<c(nm, "varchar", 30), [ID EXCEPT !.n = other], c(Str("zz"), "int", 2)>>, <<2, 3>>)
             [] OTHER -> TabS(<<ID, c(Str("yy"), "varchar", 30), c(Str("zz"), "int", 2)>>, <<1>>)
  IN CASE pl = "tab" -> [t EXCEPT !.name = nm] [] pl = "db" -> [t EXCEPT !.db = nm] [] pl = "names" -> [t EXCEPT !.db = nm, !.name = other] [] OTHER -> t
\* the text column is the second one, or the first
NameRows(pl) == [i \in 1..5 |-> LET txt == IF i = 3 THEN Null ELSE S(Str("v") \o Dig(i, 2))
                                    num == IF i = 4 /\ pl # "both" THEN Null ELSE W(<<128>> \o <<i>>)
                                IN IF pl \in {"key", "both"} THEN <<txt, Id(i), num>> ELSE <<Id(i), txt, num>>]

VARIABLE st
Init == \/ st \in [ph : {"type"}, ty : ColTypes]
        \/ st \in [ph : {"name0"}, pl : NamePlaces]
Classes == {<<n, 0>> : n \in {"single", "between", "end", "tricky", "all", "random"}}
Long(ty) == ty[2] = 7950 \/ ty[1] \in {"text", "blob"}
NextName == /\ st.ph = "name0"
            /\ \E i \in 1..Len(NamesOf(st.pl)), fmt \in {"C", "R"} : st' = [ph |-> "name", pl |-> st.pl, i |-> i, fmt |-> fmt]
NextText == /\ st.ph = "type"
        /\ \E role \in {"notnull", "null", "key", "decimal"}, fmt \in {"C", "R"}, lvl \in {"", "default", "trace"},
              cl \in Classes \cup {<<"long", 0>>} \cup {<<"special", i>> : i \in 1..21} \cup (IF Deep = 1 THEN {<<"pair", i>> : i \in 0..255} ELSE {}) :
              /\ role = "key" => st.ty[1] \notin {"text", "blob"} /\ st.ty[2] # 7950
              /\ cl[1] = "long" => Long(st.ty) /\ role \in {"notnull", "null"} /\ lvl = ""
              /\ st.ty[2] = 7950 => cl[1] = "long"
              /\ role = "decimal" => cl[1] = "tricky"
              /\ cl[1] = "special" => (role = (CASE cl[2] % 3 = 0 -> (IF st.ty[1] \in {"text", "blob"} THEN "notnull" ELSE "key") [] cl[2] % 3 = 1 -> "null" [] OTHER -> "notnull") /\ (fmt = "C") = (cl[2] % 2 = 0) /\ lvl = "")
              /\ cl[1] = "pair" => (role = "notnull" /\ fmt = "C" /\ lvl = "" /\ st.ty[1] \in {"varchar", "blob", "char"})
              /\ (lvl # "") => (fmt = "C" /\ role # "null" /\ cl[1] = "tricky")
              /\ st' = [ph |-> "case", ty |-> st.ty, role |-> role, fmt |-> fmt, cl |-> cl, lvl |-> lvl]
Next == NextName \/ NextText

Value(s) == [n |-> Str("v"), k |-> s.ty[1], w |-> s.ty[2], mb |-> s.ty[3], u |-> FALSE, nn |-> s.role # "null"]
\* A column whose values are not supported: the statement stays well-formed.
Decimal == Col(Str("d"), "decimal", 5, FALSE)
Next2 == Col(Str("z"), "varchar", 20, FALSE)
LastCol == Col(Str("y"), "int", 2, TRUE)
TabOf(s) == IF s.role = "key" THEN TabS(<<LastCol, Value(s), Next2>>, <<2>>)
            ELSE IF s.role = "decimal" THEN TabS(<<ID, Decimal, Value(s), LastCol>>, <<1>>) ELSE TabS(<<ID, Value(s), Next2, LastCol>>, <<1>>)
RowsOf(s) ==
  LET ss == Strings(s.cl)
      v(i) == S(IF s.ty[1] \in {"char", "charmb"} THEN Trim(ss[i]) ELSE ss[i])
  IN [i \in 1..Len(ss) |-> IF s.role = "key" THEN <<W(U2(i)), v(i), S(Str("behind"))>>
                         ELSE IF s.role = "decimal" THEN <<Id(i), IF i % 4 = 0 THEN Null ELSE S(<<128 + (i % 100), 0, i % 100, 0, 50>>), v(i), W(U2(i))>> ELSE <<Id(i), v(i), IF i % 3 = 0 \/ s.cl[1] = "long" THEN Null ELSE v(i), W(U2(i))>>]
\* the second text column is no CHAR: trailing spaces stay
Name(s) == "C10-" \o s.ty[1] \o (IF s.ty[2] = 7950 THEN "L" ELSE "") \o (IF s.ty[1] = "charmb" THEN ToString(s.ty[3]) ELSE "") \o "-" \o s.role \o "-" \o s.fmt \o "-" \o s.cl[1] \o ToString(s.cl[2]) \o "-" \o s.lvl
Case(s) == LET c == RowsCase2(Name(s), "contents " \o Name(s), TabOf(s), s.fmt, RowsOf(s), Seed + 9)
           IN [c EXCEPT !.runs = [i \in 1..Len(@) |-> [lvl |-> s.lvl] @@ @[i]]]
NameCase(s) == RowsCase2("C10-name-" \o s.pl \o "-" \o ToString(s.i) \o "-" \o s.fmt, "names, place " \o s.pl \o " number " \o ToString(s.i), NameTab(s.pl, s.i), s.fmt, NameRows(s.pl), Seed + s.i)
Emit == IF st.ph = "name" THEN EmitCase(NameCase(st)) ELSE st.ph = "case" => EmitCase(Case(st))
=============================================================================
