-------------------------------- MODULE C06 --------------------------------
(***************************************************************************)
(* C06: numbers of every width and sign, in and outside of keys.           *)
(*                                                                         *)
(* A state is a column type, its role in the table, the row format and a   *)
(* class of values; the behaviour stores all values of the class in rows   *)
(* of one page.                                                            *)
(***************************************************************************)
EXTENDS Redo

IntTypes == {<<"int", w, u>> : w \in {1, 2, 3, 4, 8}, u \in BOOLEAN}
EnumTypes == {<<"enum", w, TRUE>> : w \in {1, 2}} \cup {<<"set", w, TRUE>> : w \in {1, 2, 3, 4, 8}}
BitTypes == {<<"bit", n, TRUE>> : n \in 1..64}          \* n bits
FloatTypes == {<<"float", 4, FALSE>>, <<"double", 8, FALSE>>}
ColTypes == IntTypes \cup EnumTypes \cup BitTypes \cup FloatTypes

Width(ty) == IF ty[1] = "bit" THEN (ty[2] + 7) \div 8 ELSE ty[2]
ColOf(ty, nn) == [n |-> Str("v"), k |-> ty[1], w |-> Width(ty), mb |-> 1, u |-> ty[3], nn |-> nn]

\* Words of w bytes.
SingleBits(w)  == [i \in 1..(8*w) |-> [j \in 1..w |-> IF j = w - ((i - 1) \div 8) THEN 2^((i - 1) % 8) ELSE 0]]
SingleZeros(w) == [i \in 1..(8*w) |-> [j \in 1..w |-> IF j = w - ((i - 1) \div 8) THEN 255 - 2^((i - 1) % 8) ELSE 255]]
Masks(w)       == [i \in 1..(8*w) |-> [j \in 1..w |->      \* 2^i - 1
                    LET d == w - j IN IF 8 * (d + 1) <= i THEN 255 ELSE IF 8 * d >= i THEN 0 ELSE 2^(i - 8*d) - 1]]
Extremes(w) == << Zeros(w), Rep(255, w), <<128>> \o Zeros(w - 1), <<127>> \o Rep(255, w - 1),
                  <<128>> \o Zeros(w - 1) , Zeros(w - 1) \o <<1>>, Rep(255, w - 1) \o <<254>>,
                  Rep(127, w), Rep(128, w), Rep(1, w), [j \in 1..w |-> j], [j \in 1..w |-> 256 - j] >>
Randoms(w, s, n) == [i \in 1..n |-> RBytes(s, 100 + i, w)]
Words(w, cl, s) == CASE cl = "bits" -> SingleBits(w) \o SingleZeros(w)
                     [] cl = "masks" -> Masks(w) \o Extremes(w)
                     [] cl = "random" -> Randoms(w, s, 60)
                     [] cl = "all" -> [i \in 1..256 |-> Zeros(w - 1) \o <<i - 1>>]
                     [] cl = "high" -> [i \in 1..256 |-> <<i - 1>> \o RBytes(s + i, 300, w - 1)]

\* Bit fields: nothing above the declared number of bits.
Clip(ty, b) == IF ty[1] # "bit" \/ ty[2] % 8 = 0 THEN b ELSE <<b[1] % (2^(ty[2] % 8))>> \o Tail(b)

\* IEEE numbers, little-endian: sign, exponent (0..2^eb - 2), mantissa.
Float32(sg, e, m3) ==   \* m3: 23 bits as 3 bytes
  <<m3[3], m3[2], (m3[1] % 128) + (e % 2) * 128, sg * 128 + (e \div 2)>>
Float64(sg, e, m7) ==   \* m7: 52 bits as 7 bytes
  <<m7[7], m7[6], m7[5], m7[4], m7[3], m7[2], (m7[1] % 16) + (e % 16) * 16, sg * 128 + (e \div 16)>>
FloatOf(w, sg, e, m) == IF w = 4 THEN Float32(sg, e, SubSeq(m, 1, 3)) ELSE Float64(sg, e, m)
MaxE(w) == IF w = 4 THEN 254 ELSE 2046
Mantissas == <<Zeros(7), Rep(255, 7), Zeros(6) \o <<1>>, <<0, 0, 1, 0, 0, 0, 0>>, <<64, 0, 0, 0, 0, 0, 0>>,
               <<76, 204, 205, 204, 204, 204, 205>> >>
Exps(w) == LET b == MaxE(w) \div 2
           IN <<0, 1, 2, b - 30, b - 4, b - 1, b, b + 1, b + 10, b + 23, b + 24, b + 31, b + 52, b + 53, b + 63, MaxE(w) - 1, MaxE(w)>>
Floats(w, cl, s) ==
  CASE cl = "bits" -> Cat([i \in 1..Len(Mantissas) |-> [j \in 1..17 |-> FloatOf(w, 0, Exps(w)[j], Mantissas[i])]])
    [] cl = "masks" -> Cat([i \in 1..Len(Mantissas) |-> [j \in 1..17 |-> FloatOf(w, 1, Exps(w)[j], Mantissas[i])]])
    [] cl = "random" -> [i \in 1..100 |-> FloatOf(w, R(s, i, 2), R(s + i, 7, MaxE(w) + 1), RBytes(s + i, 400, 7))]
    [] cl = "all" -> [i \in 1..128 |-> FloatOf(w, i % 2, (MaxE(w) \div 2) - 10 + (i \div 4), RBytes(s + i, 500, 7))]
    [] cl = "high" -> [i \in 1..(MaxE(w) \div 8) |-> FloatOf(w, i % 2, 8 * i, Zeros(7))]

IsFloat(ty) == ty[1] \in {"float", "double"}
ValuesOf(ty, cl, s) ==
  IF IsFloat(ty) THEN LET fs == Floats(Width(ty), cl, s) IN [i \in 1..Len(fs) |-> F(fs[i])]
  ELSE LET ws == Words(Width(ty), cl, s) IN [i \in 1..Len(ws) |-> W(Clip(ty, ws[i]))]

Classes == {"bits", "masks", "random", "all", "high"}
\* Keys have to be exact and distinct in a real table; the reader does not care
\* about their order.
Roles == {"notnull", "null", "key"}

VARIABLE st
Init == st \in [ph : {"type"}, ty : ColTypes]
Next == /\ st.ph = "type"
        /\ \E role \in Roles, fmt \in {"C", "R"}, cl \in Classes :
              \* bit fields of one width are enough per class, format and role varied
              /\ (st.ty[1] = "bit" /\ Deep = 0) => (cl \in {"bits", "masks", "random"} /\ (role = "null" => fmt = "R"))
              /\ st' = [ph |-> "case", ty |-> st.ty, role |-> role, fmt |-> fmt, cl |-> cl]

\* A column before and one behind, so that a wrong width shows.
Before == Col(Str("a"), "int", 2, TRUE)
Behind == Col(Str("z"), "varchar", 20, FALSE)
TabOf(s) ==
  LET c == ColOf(s.ty, s.role # "null")
  IN IF s.role = "key" THEN TabS(<<Before, c, Behind>>, <<2>>)
     ELSE TabS(<<ID, Before, c, Behind>>, <<1>>)
RowsOf(s) ==
  LET vs == ValuesOf(s.ty, s.cl, Seed)
      row(i) == LET core == <<W(U2(3000 + i)), vs[i], S(Str("after") \o Dig(i, 3))>>
                IN IF s.role = "key" THEN core ELSE <<Id(i)>> \o core
      base == [i \in 1..Len(vs) |-> row(i)]
  IN IF s.role = "null" THEN base \o <<<<Id(9999), W(U2(1)), Null, S(Str("null"))>>, row(1)>> ELSE base

Name(s) == "C06-" \o s.ty[1] \o ToString(s.ty[2]) \o (IF s.ty[3] THEN "u" ELSE "s") \o "-" \o s.role \o "-" \o s.fmt \o "-" \o s.cl

Emit == st.ph = "case" =>
  EmitCase(RowsCase2(Name(st), "numbers " \o Name(st), TabOf(st), st.fmt, RowsOf(st), Seed + 3))

=============================================================================
