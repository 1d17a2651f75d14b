-------------------------------- MODULE C08 --------------------------------
(***************************************************************************)
(* C08: character and binary values of all lengths.  A state is a column,  *)
(* its role and a row format; the behaviour stores values of all lengths   *)
(* of interest in rows of the table, between other columns of variable     *)
(* length.                                                                 *)
(***************************************************************************)
EXTENDS Redo

Wide(k, ws) == {<<k, w, 1>> : w \in ws}
ColTypes ==
  Wide("char", {1, 2, 10, 127, 128, 200, 254, 255})
  \cup Wide("binary", {1, 2, 16, 127, 128, 254, 255})
  \cup Wide("varchar", {1, 10, 126, 127, 128, 254, 255, 256, 257, 300, 511, 512, 767, 768, 4000, 8000, 16000, 65535})
  \cup Wide("varbinary", {1, 20, 127, 128, 255, 256, 257, 300, 768, 5000, 8000, 65535})
  \cup Wide("blob", 1..4) \cup Wide("text", 1..4) \cup Wide("geom", {4}) \cup Wide("json", {4})
  \cup {<<k, w, WideMb(k)>> : k \in WideChars, w \in {1, 2, 20, 63, 64, 127, 128, 191, 192, 193, 255}}
  \cup {<<"charmb", w, m>> : w \in {1, 5, 20, 63, 64, 85, 86, 127, 128, 255}, m \in 1..4}
  \cup {<<"varcharmb", w, m>> : w \in {1, 20, 42, 63, 64, 85, 86, 127, 128, 255, 256, 1000}, m \in 1..4}

MaxLen(ty) == IF ty[1] \in Blobs THEN (IF ty[2] = 1 THEN 255 ELSE 7900)
              ELSE Min2(ty[2] * ty[3], 7900)
Lens == {0, 1, 2, 3, 5, 9, 19, 31, 50, 63, 64, 99, 100, 126, 127, 128, 129, 130, 191, 192, 193, 200, 253, 254, 255, 256, 257, 258, 300,
         383, 384, 385, 510, 511, 512, 513, 639, 640, 766, 767, 768, 769, 1000, 1023, 1024, 1025, 2047, 2048, 3000, 4095, 4096, 7899, 7900}
DeepLens == 0..1100 \cup {1535, 1536, 1537} \cup {k * 256 + d : k \in 6..30, d \in {0, 1, 127, 128, 255}}
\* (Of wide characters, their number.)
LensOf(ty, role) ==
  IF ty[1] \in WideChars
  THEN {l \in (IF Deep = 1 THEN 0..255 ELSE {0, 1, 2, 3, 5, 19, 31, 62, 63, 64, 95, 96, 97, 126, 127, 128, 190, 191, 192, 193, 254, 255}) : l <= ty[2]} \cup {ty[2]}
  ELSE
  LET m == IF role = "key" THEN Min2(MaxLen(ty), 767) ELSE IF role = "pair" THEN Min2(MaxLen(ty), 3000) ELSE MaxLen(ty)
  IN {l \in (IF Deep = 1 /\ role # "pair" THEN DeepLens ELSE Lens) : l <= m} \cup {m}

\* Texts of n bytes.
Letters(n, s) == [i \in 1..n |-> 97 + ((i * 7 + s + (i \div 26)) % 26)]
PlainText(n, s) == IF n >= 8 THEN Dig(n, 4) \o Letters(n - 4, s) ELSE Letters(n, s)
Char8(m) == CASE m = 2 -> <<195, 169>> [] m = 3 -> <<226, 130, 172>> [] m = 4 -> <<240, 159, 152, 128>>
MbText(n, m) == [i \in 1..n |-> IF i > n - (n % m) THEN 120 ELSE Char8(m)[1 + ((i - 1) % m)]]
Text(style, n, m, s) ==
  CASE style = 1 -> PlainText(n, s)
    [] style = 2 -> IF m > 1 THEN MbText(n, m) ELSE [i \in 1..n |-> (s + i * 31 + (i \div 8)) % 256]
    [] style = 3 -> [i \in 1..n |-> IF i <= 2 THEN 32 ELSE IF i > n - 2 THEN 32 ELSE 97 + (i % 26)]   \* spaces around
    [] style = 4 -> [i \in 1..n |-> IF i = n THEN (IF n % 2 = 0 THEN 0 ELSE 9) ELSE 65 + (i % 26)]    \* ends with NUL or tab
    [] style = 5 -> Zeros(n)
    [] style = 6 -> Rep(32, n)
    [] style = 7 -> Rep(255, n)

\* Texts of n wide characters: letters; any (with characters of two units);
\* spaces around; with a last one which resembles a part of the pad.
WideCode(style, i, n, s) ==
  CASE style = 1 -> 97 + ((i * 7 + s) % 26)
    [] style = 2 -> 1 + ((s + i * 397) % 55000)
    [] style = 3 -> IF i <= 2 \/ i > n - 2 THEN 32 ELSE 97 + (i % 26)
    [] style = 4 -> IF i = n THEN <<8224, 288, 8192, 0, 9, 8224 + 256>>[1 + (n % 6)] ELSE 65 + (i % 26)
WideUnit(k, c, style, i) ==
  CASE k = "ucs2" -> U2(c)
    [] k = "utf32" -> (IF style = 2 /\ i % 3 = 0 THEN <<0, i % 17>> ELSE <<0, 0>>) \o U2(c)
    [] OTHER -> LET w == IF style = 2 /\ i % 3 = 0 THEN <<216, i % 256, 220, c % 256>> ELSE U2(c)
                IN IF k = "utf16" THEN w ELSE Cat([j \in 1..(Len(w) \div 2) |-> <<w[2 * j], w[(2 * j) - 1]>>])
WideText(k, style, n, s) == Cat([i \in 1..n |-> WideUnit(k, WideCode(style, i, n, s), style, i)])
RECURSIVE TrimUnits(_, _)
TrimUnits(b, u) == IF Len(b) >= Len(u) /\ SubSeq(b, Len(b) - Len(u) + 1, Len(b)) = u THEN TrimUnits(SubSeq(b, 1, Len(b) - Len(u)), u) ELSE b

\* The values of a column: <<style, length>>.
Styles(ty) == CASE ty[1] \in {"char", "charmb"} \cup WideChars -> <<1, 2, 3, 4>>
                [] OTHER -> <<1, 2, 3, 4, 5, 6, 7>>
\* A CHAR of n characters holds at least ... bytes: its value has no trailing spaces.
RECURSIVE Trim(_)
Trim(b) == IF b # <<>> /\ b[Len(b)] = 32 THEN Trim(SubSeq(b, 1, Len(b) - 1)) ELSE b
ValuesOf(ty, role) ==
  LET ls == SetToSortSeq(LensOf(ty, role), <)
      st == Styles(ty)
      one(l, x) == IF ty[1] \in WideChars THEN S(TrimUnits(WideText(ty[1], x, l, Seed + l), PadUnit(ty[1]))) ELSE
                   LET b == Text(x, l, ty[3], Seed + l)
                   IN S(CASE ty[1] \in {"char", "charmb"} -> Trim(b)
                          [] ty[1] = "binary" -> b \o Zeros(0)
                          [] OTHER -> b)
  IN IF Deep = 1 THEN Cat([i \in 1..Len(ls) |-> IF ls[i] > 300 THEN <<one(ls[i], 1 + (i % 2))>>
                                                 ELSE [j \in 1..Len(st) |-> one(ls[i], st[j])]])
     ELSE Cat([i \in 1..Len(ls) |-> IF ls[i] > 130 THEN <<one(ls[i], st[1 + (i % Len(st))])>>
                                                 ELSE <<one(ls[i], 1), one(ls[i], st[1 + (i % Len(st))])>>])

(***************************************************************************)
(* Collations: every collation of MySQL 5.7, as <<kind, bytes of a         *)
(* character, id>>.  Whether a CHAR stores its length, and what it is      *)
(* padded with, is decided by the character set of its collation.          *)
(***************************************************************************)
Multi == {<<2, {1, 13, 19, 24, 28, 84, 85, 86, 87, 88, 95, 96}>>,
          <<3, {12, 33, 76, 83, 91, 97, 98, 223} \cup 192..215>>,
          <<4, {45, 46, 255} \cup 224..247 \cup {248, 249, 250}>>,
          <<1, (2..7) \cup (9..11) \cup {14, 15, 16, 18, 20, 21, 22, 23, 25, 26, 27, 29, 30, 31, 32, 34, 99} \cup (36..44) \cup (47..53)
               \cup {57, 58, 59} \cup (64..75) \cup (77..82) \cup {89, 92, 93, 94}>>}
WideIds == {<<"ucs2", {35, 90, 159} \cup 128..151>>, <<"utf16", {54, 55} \cup 101..124>>,
            <<"utf16le", {56, 62}>>, <<"utf32", {60, 61} \cup 160..183>>}
Collations == UNION {{<<"charmb", m[1], id>> : id \in m[2]} : m \in Multi}
              \cup UNION {{<<w[1], WideMb(w[1]), id>> : id \in w[2]} : w \in WideIds}
CollSeq == SetToSortSeq(Collations, LAMBDA a, b : a[3] < b[3])
PerColl == 6
CollGroups == (Len(CollSeq) + PerColl - 1) \div PerColl
CollsOf(g) == SubSeq(CollSeq, (g - 1) * PerColl + 1, Min2(g * PerColl, Len(CollSeq)))
CollCol(j, c) == [n |-> Str("c") \o Dig(j, 2), k |-> c[1], w |-> 3 + ((c[3] + j) % 5), mb |-> c[2], u |-> FALSE, nn |-> j % 2 = 0, coll |-> c[3]]
CollVal(c, w, r) ==
  IF c[1] \in WideChars THEN S(TrimUnits(WideText(c[1], 1 + (r % 2), <<w, 1, 0, w - 1, 2, w>>[1 + (r % 6)], c[3] + r), PadUnit(c[1])))
  ELSE LET m == c[2]
           full == MbText(w * m, m)
       IN S(Trim(CASE r % 6 = 0 -> Letters(w, c[3])
                   [] r % 6 = 1 -> IF m = 1 THEN Letters(1, c[3]) ELSE full
                   [] r % 6 = 2 -> <<>>
                   [] r % 6 = 3 -> IF m = 1 THEN [i \in 1..w |-> 192 + ((i * 7 + r) % 60)] ELSE SubSeq(full, 1, (w - 1) * m)
                   [] r % 6 = 4 -> Letters(2, r)
                   [] r % 6 = 5 -> IF m = 1 THEN Letters(w - 1, r) ELSE Letters(1, r) \o SubSeq(full, 1, m)))

(***************************************************************************)
(* Widths: columns of every declared length to 255.                        *)
(***************************************************************************)
WKinds == {"char", "binary", "varchar", "varbinary"}

\* Columns whose values may be stored outside of the row.
OffKinds == {<<"text", 2>>, <<"blob", 2>>, <<"blob", 4>>, <<"varchar", 3000>>, <<"varbinary", 800>>, <<"geom", 4>>, <<"json", 4>>}

VARIABLE st
Init == st \in [ph : {"type"}, ty : ColTypes] \cup [ph : {"widths"}, ty : {<<k, g, mb>> : k \in WKinds, g \in 0..31, mb \in {1}} \cup {<<k, g, mb>> : k \in {"charmb", "varcharmb"}, g \in 0..31, mb \in 1..4}]
        \cup [ph : {"offs"}, ty : OffKinds]
        \cup [ph : {"colls"}, ty : {<<"coll", g, 0>> : g \in 1..CollGroups}]
RolesOf(ty) == {"notnull", "null", "pair"} \cup (IF ty[1] \in Blobs THEN {} ELSE {"key"})
Next == \/ /\ st.ph = "colls"
           /\ \E fmt \in {"C", "R"} : st' = [ph |-> "coll", ty |-> st.ty, role |-> "coll", fmt |-> fmt]
        \/ /\ st.ph = "widths"
           /\ \E fmt \in {"C", "R"} : st' = [ph |-> "width", ty |-> st.ty, role |-> "width", fmt |-> fmt]
        \/ /\ st.ph = "offs"
           /\ \E k2 \in OffKinds, pos \in 1..4, fmt \in {"C", "D", "R"}, rot \in (IF Deep = 1 THEN {0, 1, 5} ELSE {0}) :
              /\ Deep = 1 \/ (st.ty[2] + k2[2] + pos) % 3 = (IF fmt = "C" THEN 0 ELSE IF fmt = "D" THEN 1 ELSE 2) \/ k2 = <<"text", 2>>
              /\ st' = [ph |-> "off", k1 |-> st.ty, k2 |-> k2, pos |-> pos, fmt |-> fmt, rot |-> rot]
        \/ /\ st.ph = "type"
           /\ \E role \in RolesOf(st.ty), fmt \in {"C", "R"} :
              st' = [ph |-> "case", ty |-> st.ty, role |-> role, fmt |-> fmt]


Value(s) == [n |-> Str("v"), k |-> s.ty[1], w |-> s.ty[2], mb |-> s.ty[3], u |-> FALSE, nn |-> s.role \notin {"null", "pair"}]
Before == Col(Str("a"), "varchar", 300, FALSE)
Behind == Col(Str("z"), "varchar", 200, FALSE)
LastCol == Col(Str("y"), "int", 2, TRUE)
Partner == Col(Str("p"), "varbinary", 600, TRUE)

CollTab(s) == LET cs == CollsOf(s.ty[2]) IN TabS(<<ID>> \o [j \in 1..Len(cs) |-> CollCol(j, cs[j])] \o <<LastCol>>, <<1>>)
CollRow(s, r) ==
  LET cs == CollsOf(s.ty[2])
  IN <<Id(r)>> \o [j \in 1..Len(cs) |-> IF j % 2 = 1 /\ (r + j) % 9 = 4 THEN Null ELSE CollVal(cs[j], CollCol(j, cs[j]).w, r + j)] \o <<W(U2(4000 + r))>>
CollRows(s) == [r \in 1..(IF Deep = 1 THEN 60 ELSE 14) |-> CollRow(s, r)]
\* Eight columns, of the widths 8*g .. 8*g + 7, and every eighth number.
WWidth(s, j) == Max2(1, IF s.fmt = "C" THEN s.ty[2] * 8 + j - 1 ELSE (j - 1) * 32 + s.ty[2])
WTab(s) == TabS(<<ID>> \o [j \in 1..8 |-> [n |-> Str("c") \o Dig(j, 2), k |-> s.ty[1], w |-> WWidth(s, j), mb |-> s.ty[3], u |-> FALSE, nn |-> (j + s.ty[2]) % 2 = 0]] \o <<LastCol>>, <<1>>)
WVal(s, j, r) ==
  LET w == WWidth(s, j)   m == s.ty[3]
      n == <<w, 0, 1, w - 1, w \div 2, w>>[1 + ((r + j) % 6)]
      b == CASE (r + j) % 6 = 5 /\ m > 1 -> MbText(Min2(w * m, 500) - (Min2(w * m, 500) % m), m)
             [] (r + j) % 6 = 5 -> [i \in 1..n |-> 128 + ((i * 31 + r) % 128)]
             [] OTHER -> Letters(n, r + j)
  IN S(IF s.ty[1] = "binary" THEN b ELSE IF s.ty[1] \in {"char", "charmb"} THEN Trim(b) ELSE b)
WRows(s) == [r \in 1..(IF Deep = 1 THEN 24 ELSE 7) |-> <<Id(r)>> \o [j \in 1..8 |-> IF (j + s.ty[2]) % 2 = 1 /\ (r + j) % 5 = 2 THEN Null ELSE WVal(s, j, r)] \o <<W(U2(4000 + r))>>]
WName(s) == "C08-width-" \o s.ty[1] \o ToString(s.ty[3]) \o "-" \o ToString(s.ty[2]) \o "-" \o s.fmt
WCase(s) == RowsCase2(WName(s), "columns of all widths " \o WName(s), WTab(s), s.fmt, WRows(s), Seed + 7)
CollName(s) == "C08-coll-" \o ToString(s.ty[2]) \o "-" \o s.fmt
CollCase(s) == RowsCase2(CollName(s), "collations " \o ToString([j \in 1..Len(CollsOf(s.ty[2])) |-> CollsOf(s.ty[2])[j][3]]), CollTab(s), s.fmt, CollRows(s), Seed + 5)

TabOf(s) ==
  CASE s.role = "key" -> TabS(<<Before, Value(s), Behind, LastCol>>, <<2>>)
    [] s.role = "pair" -> TabS(<<ID, Value(s), Partner, LastCol>>, <<1>>)
    [] OTHER -> TabS(<<ID, Before, Value(s), Behind, LastCol>>, <<1>>)

PartnerLens == <<0, 1, 127, 128, 129, 255, 256, 300, 512>>
RowsOf(s) ==
  LET vs == ValuesOf(s.ty, s.role)
      before(i) == S(Letters(<<0, 3, 127, 128, 140, 1>>[1 + (i % 6)], 3))
      behind(i) == IF i % 7 = 3 THEN Null ELSE S(Str("behind") \o Dig(i, 3))
      last(i) == W(U2(4000 + i))
  IN CASE s.role = "key" -> [i \in 1..Len(vs) |-> <<before(i), vs[i], behind(i), last(i)>>]
       [] s.role = "pair" ->
            [i \in 1..Len(vs) |-> <<Id(i), vs[i], S(PlainText(PartnerLens[1 + (i % 9)], i)), last(i)>>]
            \o [i \in 1..9 |-> <<Id(1000 + i), Null, S(PlainText(PartnerLens[i], i)), last(i)>>]
       [] s.role = "null" ->
            Cat([i \in 1..Len(vs) |->
                  <<<<Id(2 * i), before(i), vs[i], behind(i), last(i)>>>>
                  \o (IF i % 5 = 0 THEN <<<<Id(2 * i + 1), before(i + 1), Null, behind(i), last(i)>>>> ELSE <<>>)])
       [] OTHER -> [i \in 1..Len(vs) |-> <<Id(i), before(i), vs[i], behind(i), last(i)>>]

Name(s) == "C08-" \o s.ty[1] \o ToString(s.ty[2]) \o "x" \o ToString(s.ty[3]) \o "-" \o s.role \o "-" \o s.fmt
Case(s) == RowsCase2(Name(s), "texts of all lengths " \o Name(s), TabOf(s), s.fmt, RowsOf(s), Seed + 5)
\* A value which is too long for the page is continued on a page of its own; the
\* row has its first 768 bytes, or none of them, and where it continues (a
\* known finding: not supported).
ExtTab == TabS(<<ID, Col(Str("b"), "extblob", 2, FALSE), LastCol>>, <<1>>)
ExtFull == PlainText(3000, 7)
ExtRow(fmt) == LET n == IF fmt = "D" THEN 0 ELSE 768
               IN <<Id(1), <<"x", SubSeq(ExtFull, 1, n) \o Zeros(3) \o <<23>> \o U4(4) \o U4(38) \o U4(0) \o U4(3000 - n), ExtFull>>, W(U2(5))>>
ExtBlob(n) == OtherPage(4, ExtTab.space, 10, U4(3000 - n) \o NoPage \o SubSeq(ExtFull, n + 1, 3000), Seed)
ExtCase(fmt) ==
  LET f == IF fmt = "D" THEN "C" ELSE fmt
      row == ExtRow(fmt)
      c == RowsCase("C08-offpage-" \o fmt, "a value outside of its row", ExtTab, f, <<row, <<Id(2), S(Str("short")), W(U2(6))>>>>, Seed)
  IN [c EXCEPT !.files[2] = [n |-> "t.ibd", nu |-> 5, c |-> @.c \o FileChunks(<<<<>>, <<>>, <<>>, <<>>, ExtBlob(IF fmt = "D" THEN 0 ELSE 768)>>)]]
\* The columns around such values, and the rows next to them, are as ever.
OffCol(n, k, nn) == Col(n, k[1], k[2], nn)
OffTab(s) ==
  LET e1 == OffCol(Str("e"), s.k1, s.pos = 2)
      e2 == OffCol(Str("g"), s.k2, FALSE)
      a == Col(Str("a"), "varchar", 30, FALSE)
      i == Col(Str("i"), "int", 4, s.pos = 3)
  IN CASE s.pos = 1 -> TabS(<<ID, e1, a, e2, i>>, <<1>>)
       [] s.pos = 2 -> TabS(<<a, i, e1, e2, ID>>, <<5>>)
       [] s.pos = 3 -> TabS(<<e2, ID, i, a, e1>>, <<3, 2>>)
       [] OTHER -> TabS(<<i, e1, e2, a>>, <<>>)
OffVal(c, m, s, r) ==
  LET n == IF s.fmt = "D" THEN 0 ELSE 768
      body(l) == IF c.k = "json" THEN Rep(97, l) ELSE IF c.k \in {"geom", "blob", "varbinary"} THEN RBytes(Seed + r, l, l) ELSE Letters(l, r)
  IN CASE m = 1 -> <<"x", body(n) \o Zeros(3) \o <<23>> \o U4(4 + r) \o U4(38) \o Zeros(4) \o U4(3000 + r)>>
       [] m = 2 -> S(body(3 + r)) [] m = 3 -> S(body(IF c.k \in {"geom", "json"} THEN 25 ELSE 0)) [] m = 4 -> S(body(120 + 2 * r)) [] OTHER -> IF c.nn THEN S(body(9)) ELSE Null
OffRow(s, m1, m2, r) ==
  LET t == OffTab(s)
      v(c) == CASE c.n = Str("e") -> OffVal(c, m1, s, r)
                [] c.n = Str("g") -> OffVal(c, m2, s, r + 1)
                [] c.n = Str("a") -> IF r % 4 = 0 /\ ~c.nn THEN Null ELSE S(Str("a") \o Dig(r, 3))
                [] c.n = Str("i") -> IF r % 5 = 2 /\ ~c.nn THEN Null ELSE W(U4(7000 + r))
                [] OTHER -> Id(r)
  IN [j \in 1..Len(t.cols) |-> v(t.cols[j])]
\* In the row are every kind of value, in every combination.
OffRows(s) == [r \in 1..25 |-> OffRow(s, 1 + (((r + s.rot) * 7) % 5), 1 + ((((r + s.rot) * 7) \div 5) % 5), r)]
OffName(s) == "C08-beside-" \o s.k1[1] \o ToString(s.k1[2]) \o "-" \o s.k2[1] \o ToString(s.k2[2]) \o "-" \o ToString(s.pos) \o s.fmt \o ToString(s.rot)
\* (Without a primary key there is nothing to name the row of an old value by.)
OffCase(s) ==
  LET d == "columns beside values outside of the row"
      f == IF s.fmt = "D" THEN "C" ELSE s.fmt
  IN IF s.pos = 4 THEN RowsCase(OffName(s), d, OffTab(s), f, OffRows(s), Seed + 9)
     ELSE RowsCase2(OffName(s), d, OffTab(s), f, OffRows(s), Seed + 9)
Emit == CASE st.ph = "case" -> EmitCase(Case(st))
          [] st.ph = "off" -> EmitCase(OffCase(st))
          [] st.ph = "coll" -> EmitCase(CollCase(st))
          [] st.ph = "width" -> EmitCase(WCase(st))
          [] st.ph = "type" /\ st.ty = <<"blob", 2, 1>> -> EmitCase(ExtCase("C")) /\ EmitCase(ExtCase("D")) /\ EmitCase(ExtCase("R"))
          [] OTHER -> TRUE

\* The encoding determines every field.
Decodable == st.ph \in {"case", "coll", "width"} =>
   LET t == IF st.ph = "coll" THEN CollTab(st) ELSE IF st.ph = "width" THEN WTab(st) ELSE TabOf(st)
       rows == IF st.ph = "coll" THEN CollRows(st) ELSE IF st.ph = "width" THEN WRows(st) ELSE RowsOf(st)
   IN \A i \in 1..Len(rows) : (i % 11 = 0) => Readable(Phys(t, rows[i], i), st.fmt)
=============================================================================
