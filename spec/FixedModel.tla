----------------------------- MODULE FixedModel -----------------------------
(* The fixed-point arithmetic behaves like the reals it stands for.            *)
EXTENDS FixedPoint, TLC
CONSTANTS N
VARIABLES x, y
vars == <<x, y>>
Some == {Ratio(n, d) : n \in 1..N, d \in {1, 3, 7, 40, 1000, 36500}}
Init == x \in Some /\ y \in Some
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
T == <<0, 0, 0, 500>>
Algebra == /\ FMul(x, y) = FMul(y, x)
           /\ FSub(FAdd(x, y), y) = x
           /\ FNearAbs(FMul(FDivInt(x, 7), FInt(7)), x, T)
           /\ FDivInt(FMulInt(x, 12), 12) = x
           /\ FNearAbs(FMul(x, FAdd(y, One)), FAdd(FMul(x, y), x), T)
           /\ (FLess(x, y) => ~FLess(y, x) /\ FAdd(FDiff(x, y), x) = y)
Reciprocal == FNear(FMul(x, FRecip(x)), One)
Exponential == x[1] < 3 /\ y[1] < 3 => FNear(FExp(FAdd(x, y)), FMul(FExp(x), FExp(y)))
Euler == FNearAbs(FExp(One), <<2, 7182, 8182, 8459>>, T)
(* roots undo powers, on both sides of one *)
Small(z) == z[1] = 0 /\ z[2] < 4000
Roots == Small(x) => \A d \in {2, 3, 12} : \A n \in {1, d - 1} :
            /\ FNear(FPow(FPowFrac(1, x, n, d), d), FPow(FAdd(One, x), n))
            /\ FNear(FPow(FPowFrac(-1, x, n, d), d), FPow(FSub(One, x), n))
(* (1 + z/n)^n approaches e^z from below *)
Compounds == x[1] < 2 => LET a == FPow(FAdd(One, FDivInt(x, 4)), 4)
                             b == FPow(FAdd(One, FDivInt(x, 12)), 12)
                         IN  ~FLess(b, a) /\ ~FLess(FExp(x), b)
Logs == /\ x[1] < 3 => FNear(FExp(FLnUp(x)), FAdd(One, x))
        /\ FLess(x, <<0, 9000, 0, 0>>) => FNear(FMul(FExp(FLnDown(x)), FSub(One, x)), One)
RealPowers == /\ Small(x) => \A d \in {2, 3, 12} : \A n \in {1, d - 1, d, d + 1} : \A sg \in {1, -1} :
                    FNear(FPowReal(sg, x, Ratio(n, d)), FMul(FPow(IF sg = 1 THEN FAdd(One, x) ELSE FSub(One, x), n \div d), FPowFrac(sg, x, n % d, d)))
Signed == \A a \in {<<1, x>>, <<-1, x>>}, b \in {<<1, y>>, <<-1, y>>} :
            /\ SClose(SSub(SAdd(a, b), b), a, Zero)
            /\ SAdd(a, b)[2] = SAdd(b, a)[2]
            /\ (SLess(a, b) <=> SNegative(SSub(a, b)))
            /\ SMul(a, b) = SNeg(SMul(SNeg(a), b))
=============================================================================
