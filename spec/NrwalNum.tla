------------------------------ MODULE NrwalNum ------------------------------
(* The numbers of the specification.                                        *)
(*   <<n, d>>        with d > 0: exactly n / d, both at most WLIM           *)
(*   <<m, 0, e, r>>  a number in [(m - r) * 10^e, (m + r) * 10^e]           *)
(*   <<0, 0>>        not determined (no real number, infinite, too large,   *)
(*                   nothing known about it)                                *)
(* Operations are exact as long as the result is a small fraction, and      *)
(* otherwise interval arithmetic with about four digits, in TLC's 32 bits.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

UNK == <<0, 0>>
LIM  == 30000
WLIM == 100000000
Abs(x) == IF x < 0 THEN -x ELSE x
Unk(q) == q[2] = 0 /\ Len(q) = 2
Exact(q) == q[2] # 0
Apx(q) == Len(q) = 4
(* exact, but more than floats with 32 bits can tell *)
Wide(q) == q[2] # 0 /\ (Abs(q[1]) > LIM \/ q[2] > LIM)
(* the product can be computed *)
Fits(a, b) == a = 0 \/ Abs(b) <= 1000000000 \div Abs(a)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)

(* exact fraction, UNK if it is too large for that *)
Mk(n, d) == IF d = 0 THEN UNK
            ELSE LET g == Gcd(Abs(n), Abs(d))
                     s == IF d < 0 THEN -1 ELSE 1
                     a == s * (n \div g)
                     b == s * (d \div g)
                 IN  IF n = 0 THEN <<0, 1>>
                     ELSE IF Abs(a) > WLIM \/ b > WLIM THEN UNK ELSE <<a, b>>

(* --------------------------------------------------- approximations ----- *)
EMAX == 25
(* numpy computes integers with 64 bits *)
EHI == 14
RECURSIVE ANorm(_, _, _)
(* floor division by ten is off by less than one *)
ANorm(m, e, r) == IF Abs(m) > LIM \/ r > LIM
                  THEN ANorm(m \div 10, e + 1, r \div 10 + 2)
                  ELSE IF e > EHI \/ e < -EMAX THEN UNK
                  ELSE <<m, 0, e, r>>
RECURSIVE ADiv10(_, _, _, _)
(* long division: at least 3000 units *)
ADiv10(m, rem, d, e) == IF m >= 3000 \/ (rem = 0 /\ m > 0) \/ e < -EMAX
                        THEN <<m, 0, e, IF rem = 0 THEN 0 ELSE 1>>
                        ELSE ADiv10(m * 10 + (rem * 10) \div d, (rem * 10) % d, d, e - 1)
ANeg(a) == <<-a[1], 0, a[3], a[4]>>
ToA(q) == IF Apx(q) THEN q
          ELSE IF Unk(q) THEN UNK
          ELSE IF q[1] = 0 THEN <<0, 0, 0, 0>>
          ELSE LET n == Abs(q[1])
                   x == ADiv10(n \div q[2], n % q[2], q[2], 0)
                   y == ANorm(x[1], x[3], x[4])
               IN  IF Unk(y) THEN UNK ELSE IF q[1] < 0 THEN ANeg(y) ELSE y
RECURSIVE AUp(_)
(* as many digits as possible *)
AUp(a) == IF Abs(a[1]) < 3000 /\ a[4] < 300 /\ (a[1] # 0 \/ a[4] # 0) /\ a[3] > -EMAX
          THEN AUp(<<a[1] * 10, 0, a[3] - 1, a[4] * 10>>) ELSE a
IsZ(a) == a[1] = 0 /\ a[4] = 0
(* in units of 10^e, where e is at least the exponent of a *)
AShift(a, e) == LET k == e - a[3] IN
                IF k = 0 THEN a
                ELSE IF k > 5 THEN <<0, 0, e, 2>>
                ELSE <<a[1] \div Pow10(k), 0, e, a[4] \div Pow10(k) + 2>>
AAdd(a0, b0) ==
  IF IsZ(a0) THEN b0 ELSE IF IsZ(b0) THEN a0
  ELSE LET a == AUp(a0)
           b == AUp(b0)
           e == IF a[3] > b[3] THEN a[3] ELSE b[3]
           x == AShift(a, e)
           y == AShift(b, e)
       IN  ANorm(x[1] + y[1], e, x[4] + y[4])
AMul(a, b) ==
  IF IsZ(a) \/ IsZ(b) THEN <<0, 1>>
  ELSE IF a[4] > 3000 \/ b[4] > 3000 THEN UNK
  ELSE ANorm(a[1] * b[1], a[3] + b[3], Abs(a[1]) * b[4] + Abs(b[1]) * a[4] + a[4] * b[4])
ADiv(a0, b0) ==
  LET a == AUp(a0)
      b == AUp(b0)
  IN  IF IsZ(a) /\ ~IsZ(b) /\ Abs(b[1]) > b[4] THEN <<0, 1>>
      ELSE IF Abs(b[1]) <= 4 * b[4] \/ a[4] > 3000 THEN UNK
      ELSE LET s == IF b[1] < 0 THEN -1 ELSE 1
               q == (s * a[1] * 10000) \div Abs(b[1])
           IN  ANorm(q, a[3] - b[3] - 4,
                     (a[4] * 10000 + Abs(q) * b[4]) \div (Abs(b[1]) - b[4]) + 2)
(* -1, 0, 1 for certainly less, equal, greater; 2 if not known *)
ACmp(a, b) == LET d == AAdd(a, ANeg(b)) IN
              IF Unk(d) THEN 2
              ELSE IF Exact(d) THEN (IF d[1] = 0 THEN 0 ELSE IF d[1] < 0 THEN -1 ELSE 1)
              ELSE IF d[1] + d[4] < 0 THEN -1 ELSE IF d[1] - d[4] > 0 THEN 1
              ELSE IF IsZ(d) THEN 0 ELSE 2

(* result of an operation: exact if possible, otherwise the approximation *)
Or(x, a, b, F(_, _)) == IF ~Unk(x) THEN x
                        ELSE LET p == ToA(a)
                                 q == ToA(b)
                             IN  IF Unk(p) \/ Unk(q) THEN UNK ELSE F(p, q)

(* exact results, UNK if they are too large *)
XMul(a, b) == IF Exact(a) /\ Exact(b) /\ Fits(a[1], b[1]) /\ Fits(a[2], b[2])
              THEN Mk(a[1] * b[1], a[2] * b[2]) ELSE UNK
XDiv(a, b) == IF Exact(a) /\ Exact(b) /\ Fits(a[1], b[2]) /\ Fits(a[2], b[1])
              THEN Mk(a[1] * b[2], a[2] * b[1]) ELSE UNK
(* the sum of large numbers may cancel: not exact in floats *)
Mag(q) == IF q[1] = 0 THEN -99 ELSE LET a == AUp(ToA(q)) IN IF Unk(a) THEN 99 ELSE a[3]
Lost(r, a) == Abs(r[1]) * a[2] < (Abs(a[1]) * r[2]) \div 100
Kept(r, a, b) == \/ Unk(r)
                 \/ r[1] = 0 /\ ~Wide(a) /\ ~Wide(b)
                 \/ /\ ~Wide(a) /\ ~Wide(b) /\ ~Wide(r)
                    /\ ~Lost(r, a) /\ ~Lost(r, b)
                 \/ /\ Wide(a) \/ Wide(b) \/ Wide(r)
                    /\ LET m == Mag(r) IN Mag(a) <= m + 1 /\ Mag(b) <= m + 1
XAdd(a, b) == IF Exact(a) /\ Exact(b) /\ Fits(a[1], b[2]) /\ Fits(b[1], a[2]) /\ Fits(a[2], b[2])
              THEN LET r == Mk(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
                   IN  IF Kept(r, a, b) THEN r ELSE UNK
              ELSE UNK

(* ------------------------------------------------------- operations ----- *)
QNeg(a)    == <<-a[1]>> \o Tail(a)
QAdd(a, b) == IF Unk(a) \/ Unk(b) THEN UNK
              ELSE Or(XAdd(a, b), a, b, AAdd)
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == IF Unk(a) \/ Unk(b) THEN UNK
              ELSE Or(XMul(a, b), a, b, AMul)
QDiv(a, b) == IF Unk(a) \/ Unk(b) \/ (Exact(b) /\ b[1] = 0) THEN UNK
              ELSE Or(XDiv(a, b), a, b, ADiv)
QComp(a, b) == IF Unk(a) \/ Unk(b) THEN 2
               ELSE IF Exact(a) /\ Exact(b) /\ Fits(a[1], b[2]) /\ Fits(b[1], a[2])
               THEN LET d == a[1] * b[2] - b[1] * a[2] IN IF d < 0 THEN -1 ELSE IF d > 0 THEN 1 ELSE 0
               ELSE ACmp(ToA(a), ToA(b))

(* logarithm and exponential in units of 1 / 10000 *)
LN2  == 6931
LN10 == 23026
RECURSIVE LnSer(_, _, _, _)
LnSer(z2, t, k, acc) == IF t = 0 \/ k > 15 THEN acc
                        ELSE LnSer(z2, (t * z2) \div 10000, k + 2, acc + t \div k)
RECURSIVE LnRed(_, _)
(* x / 10000 with x in 1..99999 *)
LnRed(x, acc) == IF x > 14142 THEN LnRed(x \div 2, acc + LN2)
                 ELSE LET z == ((x - 10000) * 10000) \div (x + 10000)
                      IN  acc + 2 * LnSer((z * z) \div 10000, z, 1, 0)
(* <<ln in 1/10000, error in 1/10000>> of a positive number *)
ALn(a0) == LET a == AUp(a0) IN
           IF Abs(a[3] + 4) > 20 THEN <<0, 30000>>
           ELSE <<LnRed(a[1], 0) + (a[3] + 4) * LN10,
                  25 + Abs(a[3] + 4) + (a[4] * 10000) \div (a[1] - a[4])>>
RECURSIVE ExpSer(_, _, _, _)
ExpSer(x, t, k, acc) == IF t = 0 \/ k > 14 THEN acc
                        ELSE LET u == (t * x) \div (10000 * k) IN ExpSer(x, u, k + 1, acc + u)
(* e^(t / 10000) with error dt / 10000 *)
AExp(t, dt) == IF dt > 1000 \/ Abs(t) > 500000 THEN UNK
               ELSE LET k == t \div LN10
                        f == t - k * LN10
                        y == ExpSer(f, 10000, 1, 10000)
                    IN  ANorm(y, k - 4, 15 + (y \div 10000 + 1) * (dt + Abs(k) + 1) * 2)
(* an approximation as multiple of 1 / 10000, <<value, error>> *)
Fix(a0) == LET a == AUp(a0)
               k == a[3] + 4
           IN  IF IsZ(a0) THEN <<0, 0>>
               ELSE IF k > 1 THEN <<0, 30000>>
               ELSE IF k >= 0 THEN <<a[1] * Pow10(k), a[4] * Pow10(k)>>
               ELSE LET s == AShift(a, -4) IN <<s[1], s[4]>>
QLn(q) == IF Unk(q) \/ q[1] <= 0 THEN UNK
          ELSE IF q = <<1, 1>> THEN <<0, 1>>
          ELSE LET a == ToA(q) IN
               IF a[1] <= 4 * a[4] THEN UNK
               ELSE LET y == ALn(a) IN IF y[2] >= 3000 THEN UNK ELSE ANorm(y[1], -4, y[2])
QExp(q) == IF Unk(q) THEN UNK
           ELSE IF Exact(q) /\ q[1] = 0 THEN <<1, 1>>
           ELSE LET y == Fix(ToA(q)) IN AExp(y[1], y[2])

RECURSIVE QPowN(_, _)
QPowN(a, k) == IF k = 0 THEN <<1, 1>> ELSE QMul(a, QPowN(a, k - 1))
(* a positive number to any power: exp(b * ln(a)) *)
APow(a, b) ==
  IF a[1] <= 4 * a[4] THEN UNK
  ELSE LET y == ALn(a) IN
       IF y[2] >= 3000 THEN UNK
       ELSE LET p == AMul(ANorm(y[1], -4, y[2]), b)
            IN  IF Unk(p) THEN UNK ELSE QExp(p)
QPow(a, b) == IF Unk(a) \/ Unk(b) THEN UNK
              ELSE IF Exact(b) /\ b[2] = 1 /\ Abs(b[1]) <= 16
              THEN (IF b[1] >= 0 THEN QPowN(a, b[1])
                    ELSE QDiv(<<1, 1>>, QPowN(a, -b[1])))
              ELSE IF a = <<1, 1>> THEN a
              ELSE IF Exact(a) /\ a[1] = 0 /\ Exact(b) /\ b[1] > 0 THEN a
              ELSE IF a[1] <= 0 THEN UNK
              ELSE APow(ToA(a), ToA(b))

(* square roots of perfect squares are exact *)
ISqrt(n) == IF \E k \in 0..180 : k * k = n THEN CHOOSE k \in 0..180 : k * k = n ELSE -1
QSqrt(a) == IF Unk(a) \/ a[1] < 0 THEN UNK
            ELSE IF Exact(a) /\ ISqrt(a[1]) >= 0 /\ ISqrt(a[2]) >= 0 THEN <<ISqrt(a[1]), ISqrt(a[2])>>
            ELSE QPow(a, <<1, 2>>)
QAbs(a)  == IF Apx(a) /\ Abs(a[1]) < a[4] THEN UNK ELSE <<Abs(a[1])>> \o Tail(a)
QSq(a)   == QMul(a, a)
QMax(a, b) == LET c == QComp(a, b) IN IF c = 2 THEN (IF a = b THEN a ELSE UNK) ELSE IF c < 0 THEN b ELSE a
QMin(a, b) == LET c == QComp(a, b) IN IF c = 2 THEN (IF a = b THEN a ELSE UNK) ELSE IF c > 0 THEN b ELSE a
QSign(a) == LET c == QComp(a, <<0, 1>>) IN IF c = 2 THEN UNK ELSE <<c, 1>>

(* --------------------------------------------------- observations ------- *)
(* An observed number comes with its five leading digits, sc is <<m, e>>, and *)
(* ap, the closest multiple of 1/30000.  It agrees with an approximation if   *)
(* it is in the interval, up to the rounding of the floats: 32 bits (np) or   *)
(* 64 bits, relative to numbers before a cancellation.                        *)
Tiny(m, e) == Abs(m) < 30000 /\ e < -12
InApx(a0, sc, ap, np) ==
  LET a == AUp(a0)
      k == sc[2] - a[3]
      x == IF sc[1] = 0 THEN 0
           ELSE IF k >= 0 THEN (IF k > 3 THEN 1000000000 ELSE sc[1] * Pow10(k))
           ELSE IF k < -6 THEN 0 ELSE sc[1] \div Pow10(-k)
      y == IF k > 3 /\ sc[1] # 0 /\ sc[1] < 0 THEN -x ELSE x
      f == Fix(a)
  IN  \/ Abs(y - a[1]) <= a[4] + 3 + Abs(a[1]) \div 2000
      \/ Abs(a[1]) <= 20 * a[4] /\ Tiny(a[1], a[3]) /\ Tiny(a[4], a[3]) /\ (sc[1] = 0 \/ Tiny(sc[1] \div 10, sc[2] + 1))
      \/ np /\ f[2] < 3000 /\ Abs(f[1]) < 100000000 /\ Abs(f[1] * 3 - ap) <= 100 + 3 * f[2]
RECURSIVE Digits9(_, _, _, _)
(* nine leading digits of n / d, and the power of ten *)
Digits9(m, rem, d, e) == IF m >= 100000000 THEN <<m, e>>
                         ELSE Digits9(m * 10 + (rem * 10) \div d, (rem * 10) % d, d, e - 1)
(* an observation with nine digits, hp is <<m, e>>, is the exact number q *)
InWide(q, hp) ==
  LET n == Abs(q[1])
      x == Digits9(n \div q[2], n % q[2], q[2], 0)
      m == IF q[1] < 0 THEN -hp[1] ELSE hp[1]
  IN  \/ hp[2] = x[2] /\ Abs(m - x[1]) <= 20
      \/ hp[2] = x[2] + 1 /\ Abs(m - 100000000) <= 2 /\ x[1] >= 999999980
      \/ hp[2] = x[2] - 1 /\ m >= 999999980 /\ x[1] <= 100000002
=============================================================================
