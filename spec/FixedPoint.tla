------------------------------ MODULE FixedPoint ----------------------------
(* Non-negative decimal numbers <<i, a, b, c>> = i + a/10^4 + b/10^8 + c/10^12 *)
(* with 32-bit limbs: the numeric scale on which rates, factors and prices of  *)
(* recorded executions are judged.  Results are truncated.                     *)
EXTENDS Integers, Sequences
FB == 10000
Zero == <<0, 0, 0, 0>>
One == <<1, 0, 0, 0>>
FInt(n) == <<n, 0, 0, 0>>
(* limbs may be large (< 2^31 after carrying) and non-negative *)
Carry4(i, a, b, c) ==
    LET b2 == b + c \div FB
        a2 == a + b2 \div FB
    IN  <<i + a2 \div FB, a2 % FB, b2 % FB, c % FB>>
FAdd(x, y) == Carry4(x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4])
(* x >= y; borrow from the limb above *)
FSub(x, y) == LET c == x[4] - y[4]
                  b == x[3] - y[3] - (IF c < 0 THEN 1 ELSE 0)
                  a == x[2] - y[2] - (IF b < 0 THEN 1 ELSE 0)
                  i == x[1] - y[1] - (IF a < 0 THEN 1 ELSE 0)
              IN  <<i, a % FB, b % FB, c % FB>>
FLess(x, y) == \/ x[1] < y[1]
               \/ x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ (x[3] < y[3] \/ (x[3] = y[3] /\ x[4] < y[4]))))
FDiff(x, y) == IF FLess(x, y) THEN FSub(y, x) ELSE FSub(x, y)
(* integer parts up to 20000 with a product below 2^31 *)
FMul(x, y) ==
    LET c4 == x[2] * y[4] + x[3] * y[3] + x[4] * y[2]
        c3 == x[1] * y[4] + x[2] * y[3] + x[3] * y[2] + x[4] * y[1] + c4 \div FB
        c2 == x[1] * y[3] + x[2] * y[2] + x[3] * y[1] + c3 \div FB
        c1 == x[1] * y[2] + x[2] * y[1] + c2 \div FB
    IN  <<x[1] * y[1] + c1 \div FB, c1 % FB, c2 % FB, c3 % FB>>
FMulInt(x, n) == Carry4(x[1] * n, x[2] * n, x[3] * n, x[4] * n)                    \* n <= 200000
FDivInt(x, n) == LET i == x[1] \div n
                     a == (x[1] % n) * FB + x[2]
                     b == (a % n) * FB + x[3]
                     c == (b % n) * FB + x[4]
                 IN  <<i, a \div n, b \div n, c \div n>>                              \* n <= 200000
Ratio(n, d) == FDivInt(FInt(n), d)
(* at most k units of 10^-12, or of 10^-8 relative to the larger number *)
FNearAbs(x, y, t) == ~FLess(t, FDiff(x, y))
Tol8 == <<0, 0, 1, 0>>                        \* 10^-8
FNear(x, y) == LET m == IF FLess(x, y) THEN y ELSE x
               IN  FNearAbs(x, y, FMul(FAdd(m, One), Tol8))

RECURSIVE FPow(_, _)
FPow(x, n) == IF n = 0 THEN One
              ELSE IF n % 2 = 1 THEN FMul(x, FPow(x, n - 1))
              ELSE LET h == FPow(x, n \div 2) IN FMul(h, h)
(* 1/y for y in [1/10000, 10000], by Newton's iteration *)
RECURSIVE Newton(_, _, _)
Newton(y, z, k) == IF k = 0 THEN z
                   ELSE LET p == FMul(y, z)
                            two == FInt(2)
                        IN  IF FLess(two, p) THEN Newton(y, FDivInt(z, 2), k - 1)
                            ELSE Newton(y, FMul(z, FSub(two, p)), k - 1)
FRecip(y) == LET z0 == IF y[1] > 0 THEN FDivInt(FInt(1), y[1] + 1)
                       ELSE IF y[2] > 0 THEN FDivInt(FInt(FB), y[2] + 1) ELSE FInt(FB)
             IN  Newton(y, z0, 9)
(* e^y, y >= 0 *)
RECURSIVE ExpSum(_, _, _, _)
ExpSum(y, term, k, acc) == IF term = Zero THEN acc
                           ELSE LET t == FDivInt(FMul(term, y), k) IN ExpSum(y, t, k + 1, FAdd(acc, t))
FExp(y) == ExpSum(y, One, 1, One)
(* ln(1 + x) and -ln(1 - x), by the series of the inverse hyperbolic tangent *)
RECURSIVE AtanhSum(_, _, _, _)
AtanhSum(z2, p, k, acc) == IF p = Zero THEN acc
                           ELSE AtanhSum(z2, FMul(p, z2), k + 2, FAdd(acc, FDivInt(p, k)))
Atanh(z) == AtanhSum(FMul(z, z), z, 1, Zero)
FLnUp(x) == FMulInt(Atanh(FMul(x, FRecip(FAdd(FInt(2), x)))), 2)
FLnDown(x) == FMulInt(Atanh(FMul(x, FRecip(FSub(FInt(2), x)))), 2)
(* (1 + sg x)^(n/d) for 0 <= n < d, x below 5 (below 0.95 when sg = -1): the    *)
(* binomial series for small x, logarithms beyond                              *)
RECURSIVE Binomial(_, _, _, _, _, _, _)
Binomial(sg, x, n, d, k, term, acc) ==       \* term = |C(n/d, k) x^k|; its sign alternates with sg = 1
    IF term = Zero THEN acc
    ELSE LET t == FDivInt(FMulInt(FMul(term, x), k * d - n), d * (k + 1))
             plus == sg = 1 /\ k % 2 = 0      \* sign of the next term
         IN  Binomial(sg, x, n, d, k + 1, t, IF plus THEN FAdd(acc, t) ELSE FSub(acc, t))
FPowFrac(sg, x, n, d) ==
    IF n = 0 \/ x = Zero THEN One
    ELSE IF FLess(<<0, 4500, 0, 0>>, x)
    THEN IF sg = 1 THEN FExp(FDivInt(FMulInt(FLnUp(x), n), d)) ELSE FRecip(FExp(FDivInt(FMulInt(FLnDown(x), n), d)))
    ELSE LET t == FDivInt(FMulInt(x, n), d)
         IN  Binomial(sg, x, n, d, 1, t, IF sg = 1 THEN FAdd(One, t) ELSE FSub(One, t))
(* (1 + sg x)^e for a fixed-point exponent e >= 0 *)
FPowReal(sg, x, e) ==
    LET base == IF sg = 1 THEN FAdd(One, x) ELSE FSub(One, x)
        frac == <<0, e[2], e[3], e[4]>>
        root == IF frac = Zero \/ x = Zero THEN One
                ELSE IF sg = 1 THEN FExp(FMul(frac, FLnUp(x))) ELSE FRecip(FExp(FMul(frac, FLnDown(x))))
    IN  FMul(FPow(base, e[1]), root)

(* signed numbers <<sign, magnitude>> *)
SZero == <<1, Zero>>
SNeg(x) == <<-x[1], x[2]>>
SAdd(x, y) == IF x[1] = y[1] THEN <<x[1], FAdd(x[2], y[2])>>
              ELSE IF FLess(x[2], y[2]) THEN <<y[1], FSub(y[2], x[2])>> ELSE <<x[1], FSub(x[2], y[2])>>
SSub(x, y) == SAdd(x, SNeg(y))
SMul(x, y) == <<x[1] * y[1], FMul(x[2], y[2])>>
SInt(n) == IF n < 0 THEN <<-1, FInt(-n)>> ELSE <<1, FInt(n)>>
SRatio(n, d) == IF n < 0 THEN <<-1, Ratio(-n, d)>> ELSE <<1, Ratio(n, d)>>
SLess(x, y) == LET z == SSub(y, x) IN z[1] = 1 /\ z[2] # Zero
SNegative(x) == x[1] = -1 /\ x[2] # Zero
(* within t, absolutely *)
SClose(x, y, t) == ~FLess(t, SSub(x, y)[2])
=============================================================================
