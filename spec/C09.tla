-------------------------------- MODULE C09 --------------------------------
(***************************************************************************)
(* C09: NULL patterns.  A state is a table with n nullable columns (of     *)
(* rotating types, between NOT NULL columns) and a set of NULL patterns;   *)
(* the behaviour stores one row per pattern, so that NULLs alternate with  *)
(* values, zeros, empty values and the text NULL.                          *)
(***************************************************************************)
EXTENDS Redo

\* rot 100 and above: many columns, of short types
KindAt(rot, i) == IF rot < 100 THEN Kinds9[1 + ((rot + i) % Len(Kinds9))]
                  ELSE IF (rot + i) % 3 = 0 THEN <<"int", 1>> ELSE <<"varchar", 10>>
NulCol(rot, i) == LET k == KindAt(rot, i)
                  IN [n |-> Str("n") \o Dig(i, IF rot < 100 THEN 2 ELSE 4), k |-> k[1], w |-> k[2],
                      mb |-> IF k[1] = "varcharmb" \/ (k[1] = "charmb" /\ (rot + i) % 2 = 0) THEN 4 ELSE 1, u |-> FALSE, nn |-> FALSE]
\* NOT NULL columns stand between the nullable ones.
NnCol(i) == IF i % 2 = 0 THEN Col(Str("m") \o Dig(i, 3), "int", 2, TRUE) ELSE Col(Str("m") \o Dig(i, 3), "varchar", 10, TRUE)
NnVal(i, r) == IF i % 2 = 0 THEN W(U2(1000 + r)) ELSE S(Str("v") \o Dig(r, 3))

\* every: a NOT NULL column after so many nullable ones (0: none)
Layout(s) == Cat([i \in 1..s.n |-> <<i>> \o (IF s.every > 0 /\ i % s.every = 0 THEN <<0 - i>> ELSE <<>>)])
\* The key is the first column, or the last one.
Cols(s) == LET l == Layout(s)
               body == [j \in 1..Len(l) |-> IF l[j] > 0 THEN NulCol(s.rot, l[j]) ELSE NnCol(0 - l[j])]
           IN IF s.keylast THEN body \o <<ID>> ELSE <<ID>> \o body
TabOf(s) == TabS(Eval(Cols(s)), <<IF s.keylast THEN Len(Cols(s)) ELSE 1>>)

\* A pattern is a function: is column i NULL?
Bits(x, i) == (x \div (2^(i - 1))) % 2 = 1
Patterns(s) ==
  LET n == s.n
  IN CASE s.set = "all" -> [x \in 1..(2^n) |-> [i \in 1..n |-> Bits(x - 1, i)]]
       [] s.set = "one" -> [x \in 1..(2*n) |-> [i \in 1..n |-> IF x <= n THEN i = x ELSE i # x - n]]
       [] s.set = "alternate" -> [x \in 1..12 |-> [i \in 1..n |-> (x % 2 = 0) <=> (CASE x \div 2 = 0 -> TRUE [] x \div 2 = 1 -> i % 2 = 0
                                       [] x \div 2 = 2 -> i % 3 = 0 [] x \div 2 = 3 -> i % 8 = 0 [] x \div 2 = 4 -> i % 8 = 1 [] OTHER -> i > 8)]]
       \* few values, at the ends of the bytes of the bitmap
       [] s.set = "edges" -> [x \in 1..3 |-> [i \in 1..n |-> ~(i \in {1, 8, 9, 127, 128, 129, 255, 256, 257, 264, 512, n - 1, n} /\ (i + x) % 3 # 0)]]
       [] OTHER -> [x \in 1..40 |-> [i \in 1..n |-> R(Seed + x, i + s.rot, 2) = 1]]
ValAt(s, i, x) == LET k == KindAt(s.rot, i) IN Vals(k[1], k[2])[1 + R(Seed + x, 50 + i, 3)]
Row(s, p, x) ==
  LET l == Layout(s)
      body == [j \in 1..Len(l) |-> IF l[j] > 0 THEN (IF p[l[j]] THEN Null ELSE ValAt(s, l[j], x)) ELSE NnVal(0 - l[j], x)]
  IN IF s.keylast THEN body \o <<Id(x)>> ELSE <<Id(x)>> \o body

VARIABLE st
Counts == 1..20 \cup {24, 25, 31, 32, 33, 40, 41}
\* The bitmap of more than 31 bytes, more NULLs than a byte counts, the most of all.
ManyCounts == {127, 128, 255, 256, 257, 300, 520, 1010}
Init == st \in [ph : {"n"}, n : Counts] \cup [ph : {"many"}, n : ManyCounts]
Next == \/ /\ st.ph = "many"
           /\ \E fmt \in {"C", "R"}, every \in {0, 3}, keylast \in BOOLEAN :
                /\ every = 3 => st.n < 700
                /\ st' = [ph |-> "case", n |-> st.n, rot |-> 100 + ((Seed + st.n) % 3), fmt |-> fmt, every |-> every, keylast |-> keylast, set |-> "edges"]
        \/ /\ st.ph = "n"
           /\ \E rot \in (IF Deep = 1 THEN 0..25 ELSE {st.n % 26, (st.n * 5 + 3) % 26, (Seed + st.n) % 26}), fmt \in {"C", "R"}, every \in {0, 1, 3},
              keylast \in BOOLEAN, set \in {"all", "one", "alternate", "random"} :
              /\ set = "all" => st.n <= (IF Deep = 1 THEN 9 ELSE 6)
              /\ keylast => (every = 3 \/ st.n < 4)
              /\ st' = [ph |-> "case", n |-> st.n, rot |-> rot, fmt |-> fmt, every |-> every, keylast |-> keylast, set |-> set]

RowsOf(s) == LET ps == Eval(Patterns(s)) IN Eval([x \in 1..Len(ps) |-> Row(s, ps[x], x)])
Name(s) == "C09-" \o ToString(s.n) \o "-" \o ToString(s.rot) \o "-" \o s.fmt \o "-" \o ToString(s.every) \o "-"
           \o (IF s.keylast THEN "last" ELSE "first") \o "-" \o s.set
Case(s) == RowsCase2(Name(s), "NULL patterns " \o Name(s), TabOf(s), s.fmt, RowsOf(s), Seed + 7)
\* DECIMAL values are not supported, but they are not NULL either.
DecTab == TabS(<<ID, Col(Str("d"), "decimal", 5, FALSE), Col(Str("e"), "decimal", 5, TRUE)>>, <<1>>)
DecRows == <<<<Id(1), S(<<128, 0, 12, 0, 34>>), S(<<128, 0, 0, 0, 0>>)>>, <<Id(2), Null, S(<<127, 255, 255, 255, 254>>)>>>>
NotNull(e) == [e EXCEPT !.vals = [i \in 1..Len(@) |-> IF @[i].k = "?" THEN [k |-> "*"] ELSE @[i]]]
DecCase == LET c == RowsCase("C09-decimal", "DECIMAL values", DecTab, "C", DecRows, Seed)
           IN [c EXCEPT !.runs[1].exp = [i \in 1..Len(@) |-> NotNull(@[i])]]
Emit == CASE st.ph = "case" -> EmitCase(Case(st)) [] st.ph = "n" /\ st.n = 1 -> EmitCase(DecCase) [] OTHER -> TRUE
Decodable == st.ph = "case" =>
   LET t == TabOf(st)   rows == RowsOf(st)
   IN \A i \in 1..Len(rows) : (i % 9 = 0) => Readable(Phys(t, rows[i], i), st.fmt)
=============================================================================
