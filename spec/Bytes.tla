------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings and the integer encodings used by InnoDB.                  *)
(*                                                                         *)
(* A byte string is a sequence of 0..255.  TLC integers have 32 bits, so   *)
(* 32 and 64 bit quantities that may exceed 2^31 are "words": big-endian   *)
(* byte strings of length 4 or 8.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Byte == 0..255

Zeros(n)  == [i \in 1..n |-> 0]
Rep(b, n) == [i \in 1..n |-> b]

\* The same sequence, with its elements computed once (TLC evaluates a function
\* of a LET anew with every application).
Eval(f) == f \o <<>>

\* Concatenation of a sequence of byte strings.
Cat(ss) == FlattenSeq(ss)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* Big-endian fixed width encodings of a natural number below 2^31.
U1(n) == <<n>>
U2(n) == <<n \div 256, n % 256>>
U3(n) == <<n \div 65536, (n \div 256) % 256, n % 256>>
U4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
U8(n) == <<0, 0, 0, 0>> \o U4(n)

\* The same for a number of given width 1..4.
UW(n, w) == CASE w = 1 -> U1(n) [] w = 2 -> U2(n) [] w = 3 -> U3(n) [] w = 4 -> U4(n) [] w = 8 -> U8(n)

\* Decoding (only used for numbers below 2^31).
D2(s, i) == s[i] * 256 + s[i+1]
D4(s, i) == ((s[i] * 256 + s[i+1]) * 256 + s[i+2]) * 256 + s[i+3]

IsZero(s) == \A i \in 1..Len(s) : s[i] = 0

\* Left padding / truncation of a word to a given width.
Widen(s, w) == IF Len(s) >= w THEN SubSeq(s, Len(s) - w + 1, Len(s)) ELSE Zeros(w - Len(s)) \o s

\* Two's complement negation of a byte string.
RECURSIVE NegFrom(_, _)
NegFrom(s, i) ==  \* s is negated from the least significant byte i upwards
  IF i = 0 THEN s
  ELSE IF s[i] = 0 THEN NegFrom(s, i - 1)
  ELSE [j \in 1..Len(s) |-> IF j > i THEN s[j] ELSE IF j = i THEN 256 - s[i] ELSE 255 - s[j]]
Neg(s) == NegFrom(s, Len(s))

\* Flip the most significant bit.
FlipTop(s) == <<(s[1] + 128) % 256>> \o Tail(s)

(***************************************************************************)
(* mach_write_compressed: a 32 bit word in 1..5 bytes.                     *)
(***************************************************************************)
CompW(w) ==
  IF w[1] = 0 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] < 128 THEN <<w[4]>>
  ELSE IF w[1] = 0 /\ w[2] = 0 /\ w[3] < 64 THEN <<128 + w[3], w[4]>>
  ELSE IF w[1] = 0 /\ w[2] < 32 THEN <<192 + w[2], w[3], w[4]>>
  ELSE IF w[1] < 16 THEN <<224 + w[1], w[2], w[3], w[4]>>
  ELSE <<240>> \o w
Comp(n) == CompW(U4(n))

\* mach_u64_write_compressed: the high word compressed, the low word plain.
Comp64(w) == CompW(SubSeq(w, 1, 4)) \o SubSeq(w, 5, 8)

\* mach_u64_write_much_compressed.
MuchComp64(w) ==
  IF IsZero(SubSeq(w, 1, 4)) THEN CompW(SubSeq(w, 5, 8))
  ELSE <<255>> \o CompW(SubSeq(w, 1, 4)) \o CompW(SubSeq(w, 5, 8))

\* The reader's side: the word and the number of bytes consumed, or <<>> when
\* the string is too short.
DecCompW(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET f == s[i]
           n == IF f < 128 THEN 1 ELSE IF f < 192 THEN 2 ELSE IF f < 224 THEN 3 ELSE IF f < 240 THEN 4 ELSE 5
       IN IF i + n - 1 > Len(s) THEN <<>>
          ELSE << CASE n = 1 -> <<0, 0, 0, f>>
                    [] n = 2 -> <<0, 0, f - 128, s[i+1]>>
                    [] n = 3 -> <<0, f - 192, s[i+1], s[i+2]>>
                    [] n = 4 -> <<f - 224, s[i+1], s[i+2], s[i+3]>>
                    [] n = 5 -> SubSeq(s, i + 1, i + 4), n>>

(***************************************************************************)
(* Texts.                                                                  *)
(***************************************************************************)
Printable == " !#$%&()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
\* The codes skip the quote (34), apostrophe (39) and backslash (92).
CodeAt(i) == LET c == i + 31
             IN IF i <= 2 THEN c                       \* ' ' '!'
                ELSE IF i <= 6 THEN c + 1              \* '#'..'&'
                ELSE IF i <= 58 THEN c + 2             \* '('..'['
                ELSE c + 3                             \* ']'..'~'
CodeOf == [ch \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             CodeAt(CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch)]
Str(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

\* Decimal digits of n, at least w of them.
RECURSIVE DigN(_, _)
DigN(n, w) == IF w = 0 THEN <<>> ELSE Append(DigN(n \div 10, w - 1), 48 + (n % 10))
Dig(n, w) == DigN(n, IF n >= 1000000 THEN Max2(w, 7) ELSE IF n >= 100000 THEN Max2(w, 6)
                     ELSE IF n >= 10000 THEN Max2(w, 5) ELSE IF n >= 1000 THEN Max2(w, 4)
                     ELSE IF n >= 100 THEN Max2(w, 3) ELSE IF n >= 10 THEN Max2(w, 2) ELSE Max2(w, 1))

(***************************************************************************)
(* Reproducible pseudo random choices: R(s, i, n) is the i-th choice from  *)
(* 0..n-1 in the stream s.  (Park and Miller's generator, with Schrage's   *)
(* method because TLC integers have 32 bits.)                              *)
(***************************************************************************)
Lcg(x) == LET t == 16807 * (x % 127773) - 2836 * (x \div 127773)
          IN IF t > 0 THEN t ELSE t + 2147483647
R0(s, i) == Lcg(Lcg((Lcg(Lcg(((s % 1000003) * 613 + 17) + 1)) % 1000000007) + (i * 7919 + 13) + 1))
R(s, i, n) == (R0(s, i) \div 7) % n
Pick(s, i, seq) == seq[1 + R(s, i, Len(seq))]
RByte(s, i) == R(s, i, 256)
RBytes(s, i, n) == [k \in 1..n |-> R(s + k, i, 256)]

\* Cheap bytes for places whose contents must not matter.
Noise(s, i, n) == [k \in 1..n |-> (s * 11 + i * 57 + k * 101 + (s % 7) * k * k) % 256]

=============================================================================
