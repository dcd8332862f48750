------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings and the numbers they denote.                               *)
(*                                                                         *)
(* A scalar is represented by its host bytes: the little-endian byte       *)
(* string of its object, so that 64-bit values need no 64-bit integers     *)
(* (TLC's integers are 32 bit).  Arrays, strings and vectors of scalars    *)
(* are the concatenation of their elements' host bytes.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Byte == 0..255

Zeros(n) == [i \in 1..n |-> 0]

Take(s, a, n) == SubSeq(s, a + 1, a + n)       \* n bytes from 0-based offset a

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* Reverse the bytes of each consecutive group of es bytes.
Swap(s, es) ==
  IF es = 1 THEN s
  ELSE [i \in 1..Len(s) |-> LET c == (i - 1) \div es
                                o == (i - 1) % es
                            IN  s[c * es + es - o]]

\* Host bytes <-> wire bytes of a sequence of es-byte scalars.
Ordered(s, es, be) == IF be THEN Swap(s, es) ELSE s

\* Host bytes -> wire bytes of one scalar occupying w bytes, and back.
EncScalar(v, w, be) == LET lo == SubSeq(v, 1, w) IN IF be THEN Rev(lo) ELSE lo
DecScalar(b, sz, be) == (IF be THEN Rev(b) ELSE b) \o Zeros(sz - Len(b))

\* The value survives being cut to its low w bytes.
FitsWidth(v, w) == \A i \in (w + 1)..Len(v) : v[i] = 0

\* Numbers as naturals, saturated so that TLC's integers suffice.
SAT == 268435456                                \* 2^28
NumSat(v) ==
  LET n == Len(v)
      b(i) == IF i <= n THEN v[i] ELSE 0
  IN  IF (\E i \in 5..n : v[i] # 0) \/ b(4) >= 16 THEN SAT
      ELSE b(1) + 256 * b(2) + 65536 * b(3) + 16777216 * b(4)

NatBytes(x, sz) ==
  [i \in 1..sz |-> CASE i = 1 -> x % 256
                     [] i = 2 -> (x \div 256) % 256
                     [] i = 3 -> (x \div 65536) % 256
                     [] i = 4 -> (x \div 16777216) % 256
                     [] OTHER -> 0]

\* Exact mathematical value: nine-byte two's complement holds every signed
\* and unsigned 64-bit number.
Negative(v, sg) == sg /\ v[Len(v)] >= 128
Ext9(v, sg) == [i \in 1..9 |-> IF i <= Len(v) THEN v[i]
                               ELSE IF Negative(v, sg) THEN 255 ELSE 0]
Nat9(x) == Ext9(NatBytes(x, 4), FALSE)

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i = 0 THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LessFrom(a, b, i - 1)

Bias(x) == [x EXCEPT ![9] = (@ + 128) % 256]
Less9(a, b) == LessFrom(Bias(a), Bias(b), 9)

\* Lexicographic order of byte strings (std::array<unsigned char, N>).
RECURSIVE LexLess(_, _)
LexLess(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
  ELSE LexLess(Tail(a), Tail(b))

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
=============================================================================
