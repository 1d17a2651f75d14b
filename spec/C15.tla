-------------------------------- MODULE C15 --------------------------------
(***************************************************************************)
(* C15: one statement per update of an existing row, in log order.  The    *)
(* state is the history of what the writer has appended to the log: undo   *)
(* records of every type, for known and unknown tables, and other records. *)
(* All histories up to a length, and random longer ones over many tables.  *)
(***************************************************************************)
EXTENDS Redo

T2 == [Tab(41, 24, DB, Str("u"), <<Col(Str("a"), "varchar", 40, FALSE), ID, Col(Str("n"), "int", 4, FALSE), Col(Str("d"), "datetime", 0, FALSE)>>, <<2>>)
         EXCEPT !.id = <<0, 0, 0, 1, 0, 0, 0, 40>>]
\* the same name in another database, with another key
T3 == Tab(42, 25, Str("crm"), Str("t"), <<Col(Str("m"), "varbinary", 400, FALSE), [ID EXCEPT !.n = Str("no")], Col(Str("id"), "int", 4, FALSE)>>, <<2>>)
Unknown == [TU EXCEPT !.id = U8(49)]
Tabs == <<TU, T2, T3>>

\* What one letter of the alphabet appends as the k-th record.
RowOf(t, k) == [j \in 1..Len(t.cols) |-> IF Contains(t.key, j) THEN Id(k) ELSE Null]
\* The manner m of a history: what its records have in common.  A statement
\* stands for a record, whatever other records are like it.
\*   0  numbers of their own          1  number, transaction and undo page of all the same
\*   2  each the first of its transaction    3  the same letter gives the same record    4  numbers go down
O(typ, k, m) ==
  [Opt0 EXCEPT !.typ = typ, !.cmpl = IF k % 3 = 0 THEN 0 ELSE 1, !.single = k % 2 = 0,
               !.no = CASE m = 0 -> U8(k) [] m = 1 -> U8(5) [] m = 2 -> U8(0) [] m = 3 -> U8(300) [] m = 4 -> U8(400 - k),
               !.trx = IF m = 2 THEN U8(70000 + k) ELSE @,
               !.page = IF m \in {1, 3} THEN U4(77) ELSE U4(3 + 100 * k),
               !.info = 32 * (k % 2), !.rest = IF k % 3 = 0 THEN U2(9) \o <<0, 4>> \o U4(k) \o <<1>> ELSE <<>>]
Letter(a, k0, m) ==
  LET k == IF m = 3 THEN 7 ELSE k0 IN
  CASE a = 1 -> UpdItemO(TU, RowOf(TU, k), <<<<2, S(Str("a") \o Dig(k, 2))>>, <<3, W(U4(k))>>>>, O(UpdExist, k, m))
    [] a = 2 -> UpdItemO(TU, RowOf(TU, k), <<<<3, Null>>>>, O(UpdExist, k, m))
    [] a = 3 -> UpdItemO(T2, RowOf(T2, k), <<<<1, S(Str("u") \o Dig(k, 2))>>, <<3, Null>>, <<4, T(<<2019, 1, 2, 3, 4, k % 60, 0>>)>>>>, O(UpdExist, k, m))
    [] a = 4 -> UpdItemO(TU, RowOf(TU, 1000 + k), <<>>, O(InsertRec, k, m))
    [] a = 5 -> UpdItemO(TU, RowOf(TU, 1000 + k), <<>>, O(DelMark, k, m))
    [] a = 6 -> UpdItemO(TU, RowOf(TU, 1000 + k), <<<<2, S(Str("revived"))>>>>, O(UpdDel, k, m))
    [] a = 7 -> [UpdItemO(Unknown, RowOf(Unknown, 1000 + k), <<<<2, S(Str("unknown"))>>>>, O(UpdExist, k, m)) EXCEPT !.e = <<>>]
    [] a = 8 -> Plain(RecHead(30, FALSE, U4(0), U4(k)) \o U2(200) \o U2(Len(Decoy)) \o Decoy)
    [] a = 9 -> Plain(<<MultiEnd>>)
    [] a = 10 -> UpdItemO(T3, RowOf(T3, k), <<<<1, IF k % 2 = 0 THEN Null ELSE S(Rep(65 + (k % 26), 200))>>>>, O(UpdExist, k, m))
    [] a = 11 -> UpdItemO(T3, RowOf(T3, 1000 + k), <<>>, O(InsertRec, k, m))
    [] a = 12 -> UpdItemO(T2, RowOf(T2, 1000 + k), <<>>, O(DelMark, k, m))
    [] a = 13 -> UpdItemO(TU, RowOf(TU, k), <<<<2, S(<<>>)>>>>, [O(UpdExist, k, m) EXCEPT !.ext = TRUE])
    [] a = 14 -> UpdItemO(T2, RowOf(T2, k), <<<<3, W(U4(0))>>>>, O(UpdExist, k, m))
    \* rollbacks and purges write other records, which may carry old images
    [] a = 15 -> Plain(RecHead(41, FALSE, U4(23), U4(4)) \o IndexInfo(<<4, 6, 7, 40>>, 1) \o <<0>> \o SysVals(U4(1), Rep(9, 7), U8(77)) \o U2(120) \o <<0>> \o Comp(1) \o UpdField(<<U4(3), <<Decoy>>>>))
Letters == 1..(IF Deep = 1 THEN 10 ELSE 9)
MaxLen == 4

VARIABLE st
Init == \/ st \in [ph : {"hist"}, h : {<<>>}, m : 0..4]
        \/ st \in [ph : {"seed"}, h : [1..1 -> 0..31], m : {0}]
Next ==
  \/ /\ st.ph = "hist" /\ Len(st.h) < MaxLen
     /\ \E a \in Letters :
          LET h == Append(st.h, a)
          IN \* the longest ones in one manner each
             /\ Len(h) = MaxLen /\ Deep = 0 => (h[1] + 2 * h[2] + 3 * h[3] + h[4]) % 5 = st.m
             /\ st' = [st EXCEPT !.h = h]
  \/ /\ st.ph = "seed"
     /\ \E y \in 1..(IF Deep = 1 THEN 60 ELSE 6) :
          LET x == Seed * 7 + st.h[1] * 100 + y
          IN st' = [ph |-> "rand", m |-> R(x, 300, 5), h |-> [i \in 1..(5 + R(x, 1, 120)) |-> 1 + R(x, 1 + i, 15)]]

Items(s) == [k \in 1..Len(s.h) |-> Letter(s.h[k], k, s.m)]
RECURSIVE Word(_, _)
Word(h, i) == IF i > Len(h) THEN "" ELSE ToString(h[i]) \o (IF i = Len(h) THEN "" ELSE ".") \o Word(h, i + 1)
Case(s) ==
  LET items == Items(s)
  IN [id |-> IF s.ph = "hist" THEN "C15-" \o ToString(s.m) \o "-" \o Word(s.h, 1) ELSE "C15-#", d |-> "history of the log",
      files |-> <<DictFileOf(Tabs, Seed), LogFile("log0", items, Seed + Len(s.h))>>,
      runs |-> <<RedoAll("ibdata1", "log0", ExpOf(items))>>]
Active == st.ph \in {"hist", "rand"} /\ st.h # <<>>
Emit == Active => EmitCase(Case(st))
\* Exactly the updates of existing rows of known tables yield a statement, one each.
Updates == {1, 2, 3, 10, 13, 14}
OneEach == Active =>
  /\ Len(ExpOf(Items(st))) = Len(SelectSeq(st.h, LAMBDA a : a \in Updates))
  /\ Parseable(Items(st))
=============================================================================
