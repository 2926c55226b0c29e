------------------------------ MODULE ScaleModel -----------------------------
(* Scaling of parameters over the bounds of every attribute and of every type.   *)
(* The formula of Objects.tla is exactly invertible and strictly monotone, and   *)
(* agrees with plain integer arithmetic where that fits.                         *)
EXTENDS System, Peer

CONSTANTS Types, Factors, Bases, Offs, Precs, Show, Every

VARIABLES c, done
vars == <<c, done>>

Sz == [u8 |-> 1, i8 |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4, u64 |-> 8, i64 |-> 8, f32 |-> 4, f64 |-> 8]
\* the bounds of a type (what lies beyond 2^50 a double does not hold; the last value but one, so
\* that the truncation of a result that is a little too large stays inside)
U(n) == LET k == Min(n, 6) IN {Zeros(8), <<1>> \o Zeros(7), [i \in 1..8 |-> IF i = 1 THEN 254 ELSE IF i <= k THEN 255 ELSE 0]}
I(n) == LET k == Min(n, 6)
            max == [i \in 1..8 |-> IF i = 1 THEN (IF k = 1 THEN 126 ELSE 254) ELSE IF i < k THEN 255 ELSE IF i = k THEN 127 ELSE 0]
            min == [i \in 1..8 |-> IF i = 1 THEN (IF k = 1 THEN 129 ELSE 1) ELSE IF i < k THEN 0 ELSE IF i = k THEN 128 ELSE 255]
        IN {Zeros(8), <<1>> \o Zeros(7), [i \in 1..8 |-> 255], max, min}
Fl == {Zeros(8), <<1>> \o Zeros(7), [i \in 1..8 |-> 255], <<255, 255, 15, 0, 0, 0, 0, 0>>}
Vals(t) == CASE t \in {"u8", "u16", "u32", "u64"} -> U(Sz[t]) [] t \in {"f32", "f64"} -> Fl [] OTHER -> I(Sz[t])

Op(t, sc, mul, dv, base, off, prec, v, v2, v3) ==
  [op |-> "scale", size |-> Sz[t], ty |-> t, scal |-> sc, mul |-> mul, div |-> dv, base |-> base, off |-> off, prec |-> prec,
   v |-> v, v2 |-> v2, v3 |-> v3, noset |-> IF mul = 0 \/ dv = 0 \/ base = 0 THEN 1 ELSE 0]

Init == /\ \E t \in Types, mul \in Factors, dv \in Factors, base \in Bases, off \in Offs, prec \in Precs, sc \in {0, 1} :
             \E v \in Vals(t) :
               LET o == Op(t, sc, mul, dv, base, Signed16(off), prec, v, CHOOSE w \in Vals(t) : w # v, v)
               IN (sc = 0 => mul = 10 /\ dv = 10) /\ c = o
        /\ done = FALSE /\ TLCSet(1, 0) /\ TLCSet(2, <<>>)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ (Show => /\ TLCSet(1, TLCGet(1) + 1) /\ (TLCGet(1) % Every = 0 => Collected("scale", c, 8)))
Spec == Init /\ [][Next]_vars

X == [scal |-> c.scal # 0, mul |-> c.mul, div |-> c.div, base |-> c.base, off |-> c.off, prec |-> c.prec]
V == Frac(ZBytes(c.v), <<1>>)
V2 == Frac(ZBytes(c.v2), <<1>>)
Same(a, b) == ZMul(a.n, b.d) = ZMul(b.n, a.d)
Less(a, b) == LET d == ZSub(ZMul(b.n, a.d), ZMul(a.n, b.d)) IN ~d.neg /\ d.mag # <<>>
\* eng div 10^prec / (mul base) - off
Back(x, e) ==
  IF ~x.scal THEN e
  ELSE LET d == BMul(e.d, BMul(BNat(x.mul), BNat(x.base)))
       IN Frac(ZSub(ZMul(ZMul(e.n, BNat(x.div)), BTen(x.prec)), ZMul(ZInt(x.off), d)), d)
Inverts == Invertible(X) => Same(Back(X, EngFrac(X, V)), V)
Monotone == Invertible(X) => (Less(V, V2) <=> Less(EngFrac(X, V), EngFrac(X, V2)))
Plain == (~X.scal => Same(EngFrac(X, V), V))
\* the exact result is itself within the tolerance, one that is off by a thousandth of it is not
Tolerance ==
  Invertible(X) => LET e == EngFrac(X, V) IN
    /\ Near(e, e, EngScale(X, V), 9, 0)
    /\ e.n.mag # <<>> /\ (X.off = 0 \/ ~X.scal) =>
         ~Near(e, Frac(Z(e.n.neg, BTimes(e.n.mag, 1001)), BTimes(e.d, 1000)), EngScale(X, V), 9, 0)
=============================================================================
