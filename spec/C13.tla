-------------------------------- MODULE C13 --------------------------------
(***************************************************************************)
(* C13: blocks and files are invisible.  A state is a way of writing a     *)
(* stream of records: how much of each block is filled, and after which    *)
(* blocks a new file begins.  Whatever the way, reading the blocks back    *)
(* gives the stream, and the tool prints the stream's statements.          *)
(***************************************************************************)
EXTENDS Redo

\* The streams: markers with other records in between.
Between(x, k) ==
  CASE R(x, k, 6) = 0 -> Plain(<<MultiEnd>>)
    [] R(x, k, 6) = 1 -> Plain(RecHead(2, TRUE, Edge(k), Edge(k + 5)) \o U2(100) \o Comp(k * 3))
    [] R(x, k, 6) = 2 -> Plain(RecHead(30, FALSE, U4(0), U4(k)) \o U2(200) \o U2(Len(Decoy) + k) \o Decoy \o Rep(20, k))
    [] R(x, k, 6) = 3 -> Plain(RecHead(8, FALSE, U4(0), U4(5)) \o U2(38) \o Comp64(Edge64(k * 17)))
    [] R(x, k, 6) = 4 -> Plain(RecHead(38, FALSE, U4(23), U4(4)) \o IndexInfo(<<4, 6, 7>>, 1) \o InsertSeg(FALSE, TRUE, 99, U4(5), U4(1), Decoy))
    [] OTHER -> Plain(<<Checkpoint>> \o Rep(20, 8))
Items(x, n) == Cat([k \in 1..n |-> (IF R(x, 100 + k, 3) = 0 THEN <<>> ELSE <<Between(x, k)>>) \o <<IF (x + k) % 4 = 0 THEN Tiny(k) ELSE Marker(k)>>])
Small == Items(Seed, 12)
SmallLen == Len(StreamOf(Small))

\* The file boundaries: cut the blocks after so many of them.
RECURSIVE Parts(_, _)
Parts(bs, sizes) ==
  IF sizes = <<>> \/ Len(bs) <= Head(sizes) THEN <<bs>>
  ELSE <<SubSeq(bs, 1, Head(sizes))>> \o Parts(SubSeq(bs, Head(sizes) + 1, Len(bs)), Tail(sizes))

VARIABLE st
Init == st \in [ph : {"split"}, g : 0..15]
            \cup [ph : {"random"}, g : 0..15]
            \cup [ph : {"long"}, g : 1..6]
            \cup [ph : {"wide"}, g : 0..15]
            \cup [ph : {"huge"}, g : 1..(IF Deep = 1 THEN 4 ELSE 3)]
Next ==
  \/ /\ st.ph = "split"
     /\ \E f \in {i \in 0..BlockData : i % 16 = st.g}, kind \in 1..4 :
          st' = [ph |-> "case", x |-> 0, n |-> 12,
                 \* 1: the first block ends after f bytes; 2: it is followed by an empty one; 3: each block has f bytes; 4: full ones first
                 fills |-> CASE kind = 1 -> <<f>> [] kind = 2 -> <<f, 0, 0, (f * 7) % 497>> [] kind = 3 -> Rep(IF f < 8 THEN 496 - f ELSE f, Min2(60, 1 + (SmallLen \div Max2(f, 8)))) [] OTHER -> <<BlockData, f>>,
                 files |-> CASE f % 5 = 0 -> <<>> [] f % 5 = 1 -> <<1>> [] f % 5 = 2 -> <<1, 1>> [] f % 5 = 3 -> <<2>> [] OTHER -> <<0, 1, 0, 1>>,
                 id |-> kind * 1000 + f]
  \/ /\ st.ph = "random"
     /\ \E y \in 1..(IF Deep = 1 THEN 120 ELSE 12) :
          LET x == Seed * 101 + st.g * 200 + y
          IN st' = [ph |-> "case", x |-> x, n |-> 5 + R(x, 1, 60),
                    fills |-> [i \in 1..R(x, 2, 30) |-> CASE R(x, 10 + i, 4) = 0 -> 0 [] R(x, 10 + i, 4) = 1 -> BlockData [] OTHER -> R(x, 60 + i, 497)],
                    files |-> [i \in 1..R(x, 3, 6) |-> R(x, 150 + i, 6)], id |-> 10000 + st.g * 200 + y]

  \/ /\ st.ph = "huge"
     /\ UNCHANGED st

  \* long streams, many files
  \/ /\ st.ph = "long"
     /\ \E n \in {300, IF Deep = 1 THEN 6000 ELSE 1500} :
          LET x == Seed * 7 + st.g * 31 + n
          IN st' = [ph |-> "case", x |-> x, n |-> n,
                    fills |-> CASE st.g \in {1, 2} -> <<>> [] st.g = 3 -> [i \in 1..100 |-> R(x, 60 + i, 497)] [] st.g = 4 -> <<0, BlockData, 200>> [] OTHER -> Rep(100 + st.g * 17, 40),
                    files |-> CASE st.g = 1 -> <<>> [] st.g = 2 -> Rep(1, 99) [] st.g = 3 -> [i \in 1..99 |-> 1 + R(x, 500 + i, 3)] [] st.g = 4 -> Rep(64, 9) [] OTHER -> [i \in 1..15 |-> R(x, 700 + i, 30)],
                    id |-> 20000 + st.g * 10000 + n]
  \* records of many blocks
  \/ /\ st.ph = "wide"
     /\ \E z \in {400, 496, 497, 991, 992, 1500, 4096, 9000, 16300} :
          st' = [ph |-> "case", x |-> Seed * 13 + z + st.g, n |-> z, fills |-> <<R(Seed + z, st.g, 497), R(Seed + z, 20 + st.g, 497)>>,
                 files |-> <<1 + R(Seed + z, 40 + st.g, 40), R(Seed + z, 80 + st.g, 4)>>, id |-> 200000 + z * 16 + st.g]

(***************************************************************************)
(* Logs of the size servers have: rounds of a marker in a block of its own *)
(* and a string of zeros which fills 132 blocks exactly.                   *)
(***************************************************************************)
Rounds(g) == CASE g = 1 -> 70 [] g = 2 -> 300 [] g = 3 -> 760 [] OTHER -> 1500      \* 4, 19, 48 and 96 megabytes
HugeFiles(g) == IF g % 2 = 1 THEN 1 ELSE 3
RunLen == 132
Zero12(no, r) == BlockNo(no, no % 5 = 0) \o U2(BlockSize) \o U2(IF r = 1 THEN 12 ELSE 0) \o U4(3)
StringHead(r) == LET h == RecHead(30, FALSE, U4(0), U4(r)) \o U2(200) IN h \o U2(RunLen * BlockData - Len(h) - 2)
HugeFile(name, from, to, salt) ==
  LET n == (to - from + 1) * (RunLen + 1)
      no(i) == (from - 1) * (RunLen + 1) + i
      blk(i) == LET r == from + ((i - 1) \div (RunLen + 1))  x == (i - 1) % (RunLen + 1)
                IN IF x = 0 THEN BlockBytes(Marker(r).b, 12, no(i), salt)
                   ELSE IF x = 1 THEN Zero12(no(i), 1) \o StringHead(r) ELSE Zero12(no(i), x)
      frame == LogFileOf(name, <<>>, <<>>, 1, 0, salt)
  IN [frame EXCEPT !.nu = 4 + n, !.c = @ \o Eval([i \in 1..n |-> <<3 + i, 0, blk(i)>>])]
HugeCase(g) ==
  LET k == HugeFiles(g)  n == Rounds(g)
      at(i) == (n * i) \div k
  IN [id |-> "C13-huge-" \o ToString(g), d |-> "a log of " \o ToString(n \div 16) \o " megabytes",
      files |-> <<DictFileOf(<<TU, TM>>, Seed)>> \o [i \in 1..k |-> HugeFile("log" \o ToString(i), at(i - 1) + 1, at(i), Seed + g)],
      runs |-> <<[cmd |-> "redo", sys |-> "ibdata1", redo |-> [i \in 1..k |-> "log" \o ToString(i)], out |-> "exact",
                  exp |-> Cat([r \in 1..n |-> Marker(r).e])]>>]

\* A long string, a log record of a compressed page, a long inserted record.
Wide(x, z) ==
  CASE x % 3 = 0 -> Plain(RecHead(30, x % 2 = 0, U4(0), U4(x)) \o U2(200) \o U2(z) \o Decoy \o RBytes(x, 3, z - Len(Decoy)))
    [] x % 3 = 1 -> Plain(RecHead(51, x % 2 = 0, U4(9), U4(x)) \o U2(z - 30) \o U2(30) \o Zeros(8) \o RBytes(x, 5, z - Len(Decoy)) \o Decoy)
    [] OTHER -> Plain(RecHead(9, x % 2 = 0, U4(23), U4(x)) \o InsertSeg(FALSE, TRUE, 99, U4(5), U4(1), Decoy \o RBytes(x, 3, z - Len(Decoy))))
WideItems(x, z) == <<Marker(1), Wide(x, z), Marker(2), Tiny(1), Wide(x + 1, z), Wide(x + 2, z), Tiny(2), Marker(3)>>

ItemsOf(s) == IF s.id >= 200000 THEN WideItems(s.x, s.n) ELSE IF s.x = 0 THEN Small ELSE Items(s.x, s.n)
BlocksOf(s) == Blocks(StreamOf(ItemsOf(s)), s.fills)
PartsOf(s) == Parts(BlocksOf(s), s.files)
FileName(i) == "log" \o ToString(i)
\* A file ends with its last block, or with blocks never written to.
\* The numbers of the blocks go on from file to file; some logs are so old that they wrap.
FirstNo(s) == IF s.id % 3 = 0 THEN BlockNos - R(s.id, 7, 9) ELSE 1 + R(s.id, 8, 5000)
FilesOf(s) ==
  LET bs == BlocksOf(s)
      firsts == FirstGroups(GroupStarts(ItemsOf(s), s.id), bs)
      ps == Parts(bs, s.files)
      fs == Parts(firsts, s.files)
      before(i) == FoldLeft(LAMBDA a, k : a + Len(ps[k]), 0, [k \in 1..(i - 1) |-> k])
  IN [i \in 1..Len(ps) |-> LogFileOf(FileName(i), ps[i], fs[i], FirstNo(s) + before(i), (s.id + i) % 4, Seed + s.id + i)]
Case(s) ==
  LET fs == FilesOf(s)
  IN [id |-> "C13-" \o ToString(s.id), d |-> "one stream in blocks " \o ToString(s.fills) \o " and files " \o ToString(s.files),
      files |-> <<DictFileOf(<<TU, TM>>, Seed)>> \o fs,
      runs |-> <<[cmd |-> "redo", sys |-> "ibdata1", redo |-> [i \in 1..Len(fs) |-> fs[i].n], out |-> "exact", exp |-> ExpOf(ItemsOf(s)), lvl |-> IF s.id % 50 = 0 THEN "default" ELSE ""]>>]
Emit == CASE st.ph = "case" -> EmitCase(Case(st)) [] st.ph = "huge" -> EmitCase(HugeCase(st.g)) [] OTHER -> TRUE
\* The data of the blocks, read in the order of blocks and files, is the stream.
\* (of the shorter streams)
Framing == st.ph = "case" /\ (st.id >= 200000 \/ st.n < 200) =>
  LET items == Eval(ItemsOf(st))
      bs == Eval(Blocks(StreamOf(items), st.fills))
      starts == GroupStarts(items, st.id)
      fs == FirstGroups(starts, bs)
      pos == Eval(FoldLeft(LAMBDA a, b : Append(a, a[Len(a)] + Len(b)), <<1>>, bs))
  IN /\ Cat(Cat(Parts(bs, st.files))) = StreamOf(items)
     /\ \A i \in 1..Len(bs) : Len(bs[i]) <= BlockData
     /\ Parseable(items)
     \* a header points to the first group which begins in the block
     /\ \A i \in 1..Len(bs) : fs[i] \in 12..(11 + Len(bs[i])) => Contains(starts, pos[i] + fs[i] - 12)
=============================================================================
