-------------------------------- MODULE BigNum -------------------------------
(* Integers of any size (TLC's have 32 bits): magnitudes are sequences of     *)
(* digits to the base 1000, the lowest first, without leading zeros.          *)
EXTENDS Bytes, SequencesExt

BBase == 1000
RECURSIVE BTrim(_)
BTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE BNat(_)
BNat(n) == IF n = 0 THEN <<>> ELSE <<n % BBase>> \o BNat(n \div BBase)
BDig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

Idx(n) == [i \in 1..n |-> i]

\* (folds: TLC evaluates their accumulator at once, and not again at every use)
BAdd(a, b) ==
  LET r == FoldLeft(LAMBDA x, i : LET t == BDig(a, i) + BDig(b, i) + x.c
                                  IN [c |-> t \div BBase, d |-> Append(x.d, t % BBase)],
                    [c |-> 0, d |-> <<>>], Idx(Max(Len(a), Len(b))))
  IN r.d \o BNat(r.c)
BSub(a, b) ==                                                \* a >= b
  LET r == FoldLeft(LAMBDA x, i : LET t == a[i] - BDig(b, i) - x.c
                                  IN IF t < 0 THEN [c |-> 1, d |-> Append(x.d, t + BBase)]
                                     ELSE [c |-> 0, d |-> Append(x.d, t)],
                    [c |-> 0, d |-> <<>>], Idx(Len(a)))
  IN BTrim(r.d)

RECURSIVE BLessFrom(_, _, _)
BLessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLessFrom(a, b, i - 1)
BLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLessFrom(a, b, Len(a))
BLeq(a, b)  == ~BLess(b, a)

\* times a number below 2 000 000
BTimes(a, k) ==
  IF k = 0 THEN <<>>
  ELSE LET r == FoldLeft(LAMBDA x, e : LET t == e * k + x.c
                                       IN [c |-> t \div BBase, d |-> Append(x.d, t % BBase)],
                         [c |-> 0, d |-> <<>>], a)
       IN r.d \o BNat(r.c)

BMul(a, b) == FoldRight(LAMBDA e, x : BAdd(BTimes(a, e), IF x = <<>> THEN <<>> ELSE <<0>> \o x), b, <<>>)

BTen(n) == [i \in 1..(n \div 3) |-> 0] \o <<Pow10(n % 3)>>    \* 10^n
RECURSIVE BTwo(_)                                              \* 2^n
BTwo(n) == IF n = 0 THEN <<1>> ELSE IF n >= 16 THEN BTimes(BTwo(n - 16), 65536) ELSE BTimes(BTwo(n - 1), 2)

\* the unsigned little-endian number in b
BBytes(b) == FoldRight(LAMBDA e, x : BAdd(BTimes(x, 256), BNat(e)), b, <<>>)

(* ------------------------------------------------------------------ integers *)
Z(neg, mag) == [neg |-> neg /\ mag # <<>>, mag |-> mag]
ZInt(n)     == IF n < 0 THEN Z(TRUE, BNat(-n)) ELSE Z(FALSE, BNat(n))
ZNeg(a)     == Z(~a.neg, a.mag)
ZAdd(a, b)  == IF a.neg = b.neg THEN Z(a.neg, BAdd(a.mag, b.mag))
               ELSE IF BLess(a.mag, b.mag) THEN Z(b.neg, BSub(b.mag, a.mag))
               ELSE Z(a.neg, BSub(a.mag, b.mag))
ZSub(a, b)  == ZAdd(a, ZNeg(b))
ZMul(a, m)  == Z(a.neg, BMul(a.mag, m))
\* two's complement in b
ZBytes(b) == IF b[Len(b)] < 128 THEN Z(FALSE, BBytes(b))
             ELSE Z(TRUE, BAdd(BBytes([i \in 1..Len(b) |-> 255 - b[i]]), <<1>>))

(* --------------------------------------------- fractions: n / d, d a magnitude *)
Frac(n, d) == [n |-> n, d |-> d]
\* a floating point number (IEEE 754, little-endian): mb mantissa bits, exponent bias
FloatFrac(top, mant, mb, bias) ==                              \* top: sign and exponent, mant: magnitude
  LET neg == top[1] # 0
      e   == top[2]
      m   == IF e = 0 THEN mant ELSE BAdd(mant, BTwo(mb))
      x   == (IF e = 0 THEN 1 ELSE e) - bias - mb
  IN IF x >= 0 THEN Frac(Z(neg, BMul(m, BTwo(x))), <<1>>) ELSE Frac(Z(neg, m), BTwo(-x))
F32(b) == FloatFrac(<<b[4] \div 128, (b[4] % 128) * 2 + b[3] \div 128>>, BBytes(<<b[1], b[2], b[3] % 128>>), 23, 127)
F64(b) == FloatFrac(<<b[8] \div 128, (b[8] % 128) * 16 + b[7] \div 16>>,
                    BBytes(SubSeq(b, 1, 6) \o <<b[7] % 16>>), 52, 1023)

\* the value of the bytes b of type ty
ValOf(b, ty) ==
  CASE ty \in {"u8", "u16", "u32", "u64"} -> Frac(Z(FALSE, BBytes(b)), <<1>>)
    [] ty \in {"i8", "i16", "i32", "i64"} -> Frac(ZBytes(b), <<1>>)
    [] ty = "f32" -> F32(b)
    [] ty = "f64" -> F64(b)

\* an observed floating point number: fifteen digits [neg, m, x]: m * 10^x; or not a number at all
ObsFrac(r) == IF r.x >= 0 THEN Frac(Z(r.neg, BMul(BTrim(r.m), BTen(r.x))), <<1>>)
              ELSE Frac(Z(r.neg, BTrim(r.m)), BTen(-r.x))

\* |a - b| <= s / 10^k + c   (s: a fraction with a positive numerator, c a number)
Near(a, b, s, k, c) ==
  LET d   == ZSub(ZMul(a.n, b.d), ZMul(b.n, a.d)).mag          \* over a.d b.d
      ab  == BMul(a.d, b.d)
      lhs == BMul(BMul(d, s.d), BTen(k))                        \* over a.d b.d s.d 10^k
      rhs == BMul(BAdd(s.n.mag, BTimes(BMul(s.d, BTen(k)), c)), ab)
  IN BLeq(lhs, rhs)
=============================================================================
