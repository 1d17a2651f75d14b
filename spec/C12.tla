-------------------------------- MODULE C12 --------------------------------
(***************************************************************************)
(* C12: every record is consumed by exactly its own length.  The state is  *)
(* what the log's writer has appended: records of every type in every      *)
(* variant of its encoding, between markers, whose statements tell whether *)
(* the reader still is in step.                                            *)
(***************************************************************************)
EXTENDS Redo

\* Payload bytes: nothing, a byte, a complete undo record, bytes which are record types, ...
Stuff(i) == CASE i % 6 = 0 -> <<>> [] i % 6 = 1 -> <<20>> [] i % 6 = 2 -> Decoy [] i % 6 = 3 -> [k \in 1..(60 + i) |-> (k * 7) % 64]
              [] i % 6 = 4 -> Rep(148, 9) \o Decoy \o Rep(20, 3) [] OTHER -> RBytes(Seed + i, 3, 130 + (i % 40))
Lens(i) == CASE i % 5 = 0 -> <<>> [] i % 5 = 1 -> <<4>> [] i % 5 = 2 -> <<32772, 6, 7, 40>> [] i % 5 = 3 -> [k \in 1..20 |-> k * 300] [] OTHER -> <<20, 20, 5141, 0>>
Index(i) == IndexInfo(Lens(i), i % 3)
\* The variants of a body; i counts them.
NVar == 6 * NEdge
Body(code, i) ==
  LET pre == IF code \in IndexTypes THEN Index(i) ELSE <<>>
      off == U2((i * 997) % 16384)
      trx == IF code \in {8, 24, 25} /\ i > NEdge THEN AnyWord64(i * 5) ELSE AnyWord64(IF i > 3 * NEdge THEN NEdge * NEdge + i * 3 ELSE i * NEdge + ((i * 3) % NEdge))
      roll == RBytes(Seed + i, 5, 7)
  IN pre \o
     CASE code = 1 -> off \o CompW(<<0, 0, 0, (i * 13) % 256>>)
       [] code = 2 -> off \o CompW(<<0, 0>> \o U2(Pick(Seed, i, <<0, 127, 128, 255, 16383, 16384, 65535, 5140>>)))
       [] code = 4 -> off \o CompW(AnyWord(i))
       [] code = 8 -> off \o Comp64(trx)
       [] code \in {9, 38} -> InsertSeg(FALSE, i % 2 = 0, i * 3, AnyWord(i), AnyWord(i + 3), Stuff(i))
       [] code \in {10, 39} -> <<(i * 11) % 32, i % 2>> \o SysVals(AnyWord(i), roll, trx) \o off
       [] code \in {11, 40} -> <<i % 2>> \o off
       [] code \in {13, 41} -> <<(i * 11) % 32>> \o SysVals(AnyWord(i + 1), roll, trx) \o off \o <<16 * (i % 4)>>
                               \o LET fs == [k \in 1..((i * 7) % 5) |-> <<AnyWord(i + k), IF (i + k) % 3 = 0 THEN <<>> ELSE <<Stuff(i + k)>>>>]
                                  IN Comp(Len(fs)) \o Cat([k \in 1..Len(fs) |-> UpdField(fs[k])])
       [] code \in OffsetTypes \cup MinMarks -> off
       [] code \in {17, 45} -> LET b == Cat([k \in 1..(i % 4) |-> InsertSeg(TRUE, (i + k) % 2 = 0, 0, AnyWord(i + k), AnyWord(k), Stuff(i + k))])
                               IN U4(Len(b)) \o b
       [] code \in {52, 53} -> <<i % 12>>
       [] code = 22 -> Comp(1 + (i % 2))
       [] code \in {24, 25} -> Comp64(trx)
       [] code = 30 -> off \o U2(Len(Stuff(i))) \o Stuff(i)
       [] code \in FileTypes -> LET n == IF i % 4 = 0 THEN Decoy ELSE Str("./shop/t.ibd") \o <<0>> IN U2(Len(n)) \o n
       [] code = 47 -> AnyWord(i + 7) \o U2(13) \o Str("./shop/t.ibd") \o <<0>>
       [] code \in RenameTypes -> LET n == Str("./shop/t.ibd") \o <<0>>
                                      m == IF i % 2 = 0 THEN Decoy ELSE IF i % 3 = 0 THEN Rep(20, 300) ELSE Str("./shop/t_2.ibd") \o <<0>>
                                  IN U2(Len(n)) \o n \o U2(Len(m)) \o m
       [] code = 48 -> off \o off \o RBytes(Seed + i, 6, 4)
       [] code = 49 -> off \o off \o RBytes(Seed + i, 7, 20)
       [] code = 50 -> LET b == SubSeq(Stuff(i), 1, Min2(Len(Stuff(i)), 255)) IN <<(i * 37) % 256, Len(b)>> \o b
       [] code = 51 -> LET b == Stuff(i)  c == Stuff(i + 1) IN U2(Len(b)) \o U2(Len(c)) \o RBytes(Seed + i, 8, 8) \o b \o c
       [] code \in {60, 61} -> RBytes(Seed + i, 9, 8)
       [] OTHER -> <<>>

\* space and page numbers: the width of each varies in its own rhythm
Rec12(code, i, single) ==
  IF code \in Bare THEN <<code>>
  ELSE IF code = Checkpoint THEN <<Checkpoint + (IF single THEN 128 ELSE 0)>> \o RBytes(Seed + i, 11, 8)
  ELSE RecHead(code, single, IF single \/ i % 3 = 0 THEN Edge(i + code) ELSE BitWord(4, (i + code) % 33, Seed + i + code * 7),
                             IF single \/ i % 3 = 1 THEN Edge(1 + ((i + code) \div NEdge) + 5 * i) ELSE BitWord(4, (i * 5 + code) % 33, Seed + i * 3 + code)) \o Body(code, i)
AllTypes == OtherTypes \cup Bare \cup {Checkpoint}

(***************************************************************************)
(* Bodies whose length fields count far: up to the largest index, update   *)
(* vector, name and string there can be.                                   *)
(***************************************************************************)
\* n bytes which contain complete records at every distance
Load(n) == [k \in 1..n |-> CASE k % 97 < Len(Decoy) -> Decoy[1 + (k % 97)] [] k % 7 = 0 -> 148 [] OTHER -> (k * 31) % 256]
ManyLens(n) == [k \in 1..n |-> CASE k % 3 = 0 -> 4 [] k % 3 = 1 -> 32772 [] OTHER -> 5140]
BigTypes == {30, 51, 9, 38, 13, 41, 17, 45, 40, 42, 46, 53} \cup FileTypes \cup RenameTypes
BigSizes(code) ==
  CASE code \in {30, 51} -> {254, 255, 256, 257, 511, 512, 1024, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 65535}
    [] code \in {9, 38} -> {63, 64, 127, 128, 255, 256, 511, 512, 4096, 8191, 8192, 8193, 16384, 20000}
    [] code \in {13, 41} -> {127, 128, 255, 256, 257, 511, 512, 1000, 1020, 16383, 16384}
    [] code \in {17, 45} -> {2, 3, 34, 35, 136, 137, 273, 274, 546, 547, 1092, 1093}
    [] code \in FileTypes \cup RenameTypes -> {254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 4096}
    [] OTHER -> {20, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 767, 1000, 1017, 1020, 1023}
\* 120 bytes of a copied list of records
Seg120 == LET a == InsertSeg(TRUE, TRUE, 0, U4(5), U4(7), Load(60)) IN a \o InsertSeg(TRUE, FALSE, 0, U4(0), U4(0), Load(119 - Len(a)))
ASSUME Len(Seg120) = 120
BigBody(code, n) ==
  CASE code = 30 -> U2(38) \o U2(n) \o Load(n)
    [] code = 51 -> (IF n % 2 = 0 THEN U2(n) \o U2(3) ELSE U2(3) \o U2(n)) \o Rep(20, 8) \o (IF n % 2 = 0 THEN Load(n) \o Rep(148, 3) ELSE Rep(148, 3) \o Load(n))
    [] code = 9 -> InsertSeg(FALSE, n % 2 = 0, 7, Edge(3), Edge(4), Load(n))
    [] code = 38 -> Index(3) \o InsertSeg(FALSE, n % 2 = 0, 7, Edge(3), Edge(4), Load(n))
    \* a vector of n fields; a field of n bytes
    [] code \in {13, 41} -> (IF code = 41 THEN Index(4) ELSE <<>>) \o <<3>> \o SysVals(Edge(2), Rep(20, 7), Edge64(40)) \o U2(120) \o <<0>>
                            \o (IF n >= 16000 THEN Comp(2) \o UpdField(<<U4(3), <<Load(n)>>>>) \o UpdField(<<U4(4), <<>>>>)
                                ELSE Comp(n) \o Cat([k \in 1..n |-> UpdField(<<U4(k), IF k % 4 = 0 THEN <<>> ELSE <<Load(k % 5)>>>>)]))
    [] code \in {17, 45} -> (IF code = 45 THEN Index(4) ELSE <<>>) \o LET b == Eval([k \in 1..(n * 120) |-> Seg120[1 + ((k - 1) % 120)]]) IN U4(Len(b)) \o b
    [] code \in FileTypes -> U2(n) \o Load(n)
    [] code \in RenameTypes -> IF n % 2 = 0 THEN U2(n) \o Load(n) \o U2(4) \o Rep(20, 4) ELSE U2(4) \o Rep(20, 4) \o U2(n) \o Load(n)
    [] code = 40 -> IndexInfo(ManyLens(n), 3) \o <<1>> \o U2(120)
    [] code = 42 -> IndexInfo(ManyLens(n), n) \o U2(120)
    [] code = 46 -> IndexInfo(ManyLens(n), 3)
    [] code = 53 -> IndexInfo(ManyLens(n), 2) \o <<4>>
    [] OTHER -> <<>>
BigItems(s) == <<Marker(1), Plain(RecHead(s.code, FALSE, U4(23), U4(4)) \o BigBody(s.code, s.n)), Marker(2), Plain(RecHead(s.code, TRUE, U4(23), U4(4)) \o BigBody(s.code, s.n)), Marker(3)>>

VARIABLE st
\* st.recs: what the writer appended: sequence of <<code, variant, single>>
Init == \/ st \in [ph : {"type"}, code : AllTypes, recs : {<<>>}]
        \/ st \in [ph : {"rand"}, code : 1..(IF Deep = 1 THEN 400 ELSE 60), recs : {<<>>}]
        \/ st \in [ph : {"bigs"}, code : BigTypes]
RandType(x, k) == Pick(Seed * 77 + x, k, SetToSeq(AllTypes))
Next ==
  \/ /\ st.ph = "type"
     /\ \/ \E b \in 0..((NVar \div NEdge) - 1) :     \* all variants of a type
             st' = [ph |-> "case", code |-> st.code * 1000 + b,
                    recs |-> Cat([i \in 1..NEdge |-> << <<st.code, b * NEdge + i, TRUE>>, <<st.code, b * NEdge + i, FALSE>> >>])]
        \/ \E c2 \in AllTypes :  \* every pair of types, without a marker between them
             st' = [ph |-> "pair", code |-> st.code * 1000 + c2, recs |-> [i \in 1..3 |-> <<st.code, (st.code + c2 + i * 5) % NVar, i = 2, c2>>]]
  \/ /\ st.ph = "bigs"
     /\ \E n \in BigSizes(st.code) : st' = [ph |-> "big", code |-> st.code, n |-> n]
  \/ /\ st.ph = "rand"
     /\ \E x \in 1..10 :
          st' = [ph |-> "seq", code |-> st.code * 1000 + x,
                 recs |-> [k \in 1..(4 + R(st.code * 10 + x, 1, 25)) |-> <<RandType(st.code * 10 + x, k), R(st.code * 10 + x, 50 + k, NVar), R(st.code + x, k, 2) = 0>>]]

Items(s) ==
  CASE s.ph = "big" -> BigItems(s)
    [] s.ph = "case" -> <<Marker(1)>> \o Cat([k \in 1..Len(s.recs) |-> <<Plain(Rec12(s.recs[k][1], s.recs[k][2], s.recs[k][3])), Marker(k + 1)>>])
    [] s.ph = "pair" -> Cat([k \in 1..Len(s.recs) |->
          <<Plain(Rec12(s.recs[k][1], s.recs[k][2], s.recs[k][3])), Plain(Rec12(s.recs[k][4], s.recs[k][2] + k, ~s.recs[k][3])), Marker(k + 1)>>])
    [] s.ph = "seq" -> Cat([k \in 1..Len(s.recs) |->
          <<Plain(Rec12(s.recs[k][1], s.recs[k][2], s.recs[k][3]))>> \o (IF R(s.code, 100 + k, 3) = 0 \/ k = Len(s.recs) THEN <<Marker(k)>> ELSE <<>>)])
Case(s) ==
  LET items == Items(s)
  IN [id |-> "C12-" \o s.ph \o "-" \o ToString(s.code) \o (IF s.ph = "big" THEN "-" \o ToString(s.n) ELSE ""), d |-> "redo log records between updates",
      files |-> <<DictFileOf(<<TU>>, Seed), LogFile("log0", items, Seed + s.code)>>,
      runs |-> <<RedoAll("ibdata1", "log0", ExpOf(items))>>]
Active == st.ph \in {"case", "pair", "seq", "big"}
Emit == Active => EmitCase(Case(st))
\* the decoder of the specification reads the whole stream, so not the longest ones
Unambiguous == (Active /\ ~(st.ph = "big" /\ st.n > 5000)) => Parseable(Items(st))
=============================================================================
