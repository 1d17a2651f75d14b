-------------------------------- MODULE C16 --------------------------------
(***************************************************************************)
(* C16: the filter.  A state is a dictionary of tables with confusable     *)
(* names, a history of updates of them, and a filter: a database name, a   *)
(* table name, both or none, existing or not.                              *)
(***************************************************************************)
EXTENDS Redo

DBs  == <<Str("shop"), Str("shop2"), Str("Shop"), Str("sho"), Str("t")>>
TBs  == <<Str("t"), Str("t2"), Str("T"), Str("tt"), Str("shop")>>
Wanted == <<"", "shop", "shop2", "Shop", "SHOP", "sho", "shopp", "t", "T", "t2", "tt", "ttt", "s", "%", "*", "nosuch">>
\* A table in every database, with the same names in several of them; the key
\* has a name of its own in each.
IDOf(i) == [ID EXCEPT !.n = IF i % 2 = 1 THEN Str("id") ELSE Str("no") \o Dig(i, 1)]
TabAt(i, j) == Tab(100 + i * 10 + j, 100 + i * 10 + j, DBs[i], TBs[j],
                   IF (i + j) % 3 = 0 THEN <<Col(Str("a"), "varchar", 40, FALSE), IDOf(i)>> ELSE <<IDOf(i), Col(Str("a"), "varchar", 40, FALSE)>>, <<IF (i + j) % 3 = 0 THEN 2 ELSE 1>>)
\* Names with the escapes of the file names, and of partitions.
DBs2 == <<Str("shop"), Str("shop@002d2"), Str("shop@0020"), Str("a@002dshop"), Str("#mysql50#shop")>>
TBs2 == <<Str("t"), Str("t#P#p0"), Str("t#P#p0#SP#s1"), Str("t@002e"), Str("#sql-t")>>
Wanted2 == << <<>> >> \o DBs2 \o TBs2 \o <<Str("shop-2"), Str("t."), Str("t#P#p"), Str("t#p#p0"), Str("#P#p0"), Str("p0"), Str("#"), Str("@")>>
TabAt2(i, j) == [TabAt(i, j) EXCEPT !.db = DBs2[i], !.name = TBs2[j]]
Subset(m) == SelectSeq([x \in 1..25 |-> <<1 + ((x - 1) \div 5), 1 + ((x - 1) % 5)>>],
                       LAMBDA p : CASE m = 0 -> TRUE [] m = 1 -> p[1] <= 2 [] m = 2 -> (p[1] + p[2]) % 2 = 0 [] m = 3 -> p \in {<<1, 1>>, <<2, 1>>, <<1, 2>>} [] OTHER -> p = <<1, 1>>)
\* Names which are one of a table only if they are read in some way: with
\* quotes or spaces around them, qualified, a list, a pattern, an escape.
Odd == << <<32>> \o Str("t"), Str("t") \o <<32>>, <<9>> \o Str("t"), Str("t") \o <<10>>, <<96>> \o Str("t") \o <<96>>, <<39>> \o Str("t") \o <<39>>, <<34>> \o Str("t") \o <<34>>,
          Str("shop.t"), Str("shop/t"), <<96>> \o Str("shop") \o <<96, 46, 96>> \o Str("t") \o <<96>>, Str("t,t2"), Str("t "), Str("^t$"), Str("t%"), Str("t*"), Str("t.*"), Str(".t"), Str("/t"),
          Str("t;"), Str("(t)"), Str("t|t2"), <<64>> \o Str("0074"), <<37>> \o Str("74"), <<92>> \o Str("t"), <<195, 176>>, <<116, 204, 129>>, <<239, 188, 180>>, Str("t#P#p0"), Str("t.ibd"), <<46, 47, 116>>,
          Str("shop") \o <<32>>, <<32>> \o Str("shop"), <<96>> \o Str("shop") \o <<96>>, Str("shop/"), Str("/shop"), Str("./shop"), Str("shop,t") >>

VARIABLE st
Init == \/ st \in [ph : {"db"}, db : 1..Len(Wanted), m : 0..4]
        \/ st \in [ph : {"esc"}, db : 1..Len(Wanted2), m : {0, 2}]
        \/ st \in [ph : {"odd"}, odd : 1..Len(Odd), m : {0, 4}]
Next == \/ /\ st.ph = "db"
           /\ \E tab \in 1..Len(Wanted) : st' = [ph |-> "case", db |-> st.db, tab |-> tab, m |-> st.m]
        \/ /\ st.ph = "esc"
           /\ \E tab \in 1..Len(Wanted2) : st' = [ph |-> "esccase", db |-> st.db, tab |-> tab, m |-> st.m]
        \/ /\ st.ph = "odd"
           /\ \E at \in {1, 2, 3} : st' = [ph |-> "oddcase", odd |-> st.odd, at |-> at, m |-> st.m]

\* The history: every table three times, in an order of its own.
Tabs(s) == LET ps == Subset(s.m) IN [i \in 1..Len(ps) |-> TabAt(ps[i][1], ps[i][2])]
Order(s) == LET n == Len(Tabs(s)) IN [k \in 1..(3 * n) |-> 1 + R(Seed + s.db + s.tab * 20, k, n)]
UpdOf(t, k) == LET a == IF t.cols[1].n = Str("a") THEN 1 ELSE 2
               IN UpdItem(t, [j \in 1..2 |-> IF j = a THEN Null ELSE Id(k)], <<<<a, IF k % 5 = 0 THEN Null ELSE S(Str("v") \o Dig(k, 3))>>>>)
Match(t, s) == /\ Wanted[s.db] = "" \/ Str(Wanted[s.db]) = t.db
               /\ Wanted[s.tab] = "" \/ Str(Wanted[s.tab]) = t.name
Case(s) ==
  LET ts == Tabs(s)
      o == Order(s)
      items == [k \in 1..Len(o) |-> UpdOf(ts[o[k]], k)]
      sel == [k \in 1..Len(o) |-> IF Match(ts[o[k]], s) THEN items[k] ELSE [items[k] EXCEPT !.e = <<>>]]
  IN [id |-> "C16-" \o ToString(s.m) \o "-" \o Wanted[s.db] \o "-" \o Wanted[s.tab], d |-> "filter " \o Wanted[s.db] \o "." \o Wanted[s.tab],
      files |-> <<DictFileOf(ts, Seed), LogFile("log0", items, Seed + s.db)>>,
      runs |-> <<RedoRun("ibdata1", <<"log0">>, Str(Wanted[s.db]), Str(Wanted[s.tab]), ExpOf(sel)),
                 RedoRun("ibdata1", <<"log0">>, <<>>, <<>>, ExpOf(items))>>]
EscCase(s) ==
  LET ps == Subset(s.m)
      ts == [i \in 1..Len(ps) |-> TabAt2(ps[i][1], ps[i][2])]
      o == Order(s)
      items == [k \in 1..Len(o) |-> UpdOf(ts[o[k]], k)]
      sel == [k \in 1..Len(o) |-> IF Wanted2[s.db] \in {<<>>, ts[o[k]].db} /\ Wanted2[s.tab] \in {<<>>, ts[o[k]].name} THEN items[k] ELSE [items[k] EXCEPT !.e = <<>>]]
  IN [id |-> "C16-esc-" \o ToString(s.m) \o "-" \o ToString(s.db) \o "-" \o ToString(s.tab), d |-> "filter of names with escapes and partitions",
      files |-> <<DictFileOf(ts, Seed), LogFile("log0", items, Seed + s.db)>>,
      runs |-> <<RedoRun("ibdata1", <<"log0">>, Wanted2[s.db], Wanted2[s.tab], ExpOf(sel))>>]
\* As the name of the table, of the database, of both.
OddCase(s) ==
  LET c == [db |-> 1, tab |-> s.odd % 7, m |-> s.m]
      ts == Tabs(c)
      o == Order(c)
      items == [k \in 1..Len(o) |-> UpdOf(ts[o[k]], k)]
      n == Odd[s.odd]
  IN [id |-> "C16-odd-" \o ToString(s.m) \o "-" \o ToString(s.odd) \o "-" \o ToString(s.at), d |-> "filter with a name which no table has",
      files |-> <<DictFileOf(ts, Seed), LogFile("log0", items, Seed + s.odd)>>,
      runs |-> <<RedoRun("ibdata1", <<"log0">>, CASE s.at = 1 -> Str("shop") [] s.at = 2 -> n [] OTHER -> <<>>, IF s.at = 2 THEN Str("t") ELSE n, <<>>),
                 RedoRun("ibdata1", <<"log0">>, IF s.at = 1 THEN <<>> ELSE n, IF s.at = 1 THEN n ELSE IF s.at = 2 THEN <<>> ELSE n, <<>>)>>]
Emit == /\ (st.ph = "case" => EmitCase(Case(st)))
        /\ (st.ph = "esccase" => EmitCase(EscCase(st)))
        /\ (st.ph = "oddcase" => EmitCase(OddCase(st)))
=============================================================================
