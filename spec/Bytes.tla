------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of 0..255. 32-bit words are kept as four       *)
(* little-endian bytes because TLC's integers are 32-bit.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Byte(n)  == n % 256
LE2(n)   == <<n % 256, (n \div 256) % 256>>
BE2(n)   == <<(n \div 256) % 256, n % 256>>
LE4(n)   == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
Zero4    == <<0, 0, 0, 0>>
Zeros(n) == [i \in 1..n |-> 0]

\* 16-bit word at (1-based) position i
U16(b, i) == b[i] + 256 * b[i + 1]
\* 32-bit word at position i as four bytes
W4(b, i)  == SubSeq(b, i, i + 3)
\* a 32-bit word below 2^31 as a number
Num4(w)   == w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * w[4]
\* the last bytes of b from position i on
From(b, i) == SubSeq(b, i, Len(b))

\* 32-bit addition of a small number
Add4(w, k) ==
  LET a == w[1] + k
      b == w[2] + (a \div 256)
      c == w[3] + (b \div 256)
      d == w[4] + (c \div 256)
  IN <<a % 256, b % 256, c % 256, d % 256>>

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bit(v, n) == (v \div Pow2(n)) % 2

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Abs(a)    == IF a < 0 THEN -a ELSE a
Last(s)   == s[Len(s)]
SetOf(s)  == {s[i] : i \in 1..Len(s)}

\* a record field with a default (scripts leave out what they do not set)
Fld(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
=============================================================================
