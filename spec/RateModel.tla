----------------------------- MODULE RateModel ------------------------------
(* Laws of the conventions over rates R percent and times in months.           *)
EXTENDS Rates
CONSTANTS R, Months
VARIABLES sg, p, m
vars == <<sg, p, m>>
Init == sg \in {-1, 1} /\ p \in 0..R /\ m = 0
Next == m < Months /\ m' = m + 1 /\ UNCHANGED <<sg, p>>
Spec == Init /\ [][Next]_vars
Fs == {1, 2, 4, 12}
G(c, f, mm) == Growth(c, f, sg, Ratio(p, 100), mm, 12)
OneAtZero == \A c \in Compoundings, f \in Fs : FNear(G(c, f, 0), One)
(* no rate, no growth *)
Flat == p = 0 => \A c \in Compoundings, f \in Fs : FNear(G(c, f, m), One)
(* the two formulas meet at the first period, so the mixed conventions do not jump *)
Meet == \A f \in Fs : f * m = 12 => FNear(G("simple", f, m), G("compounded", f, m))
(* the more often, the more interest; never above continuous *)
Ordered == /\ ~FLess(FAdd(G("compounded", 2, m), Tol8), G("compounded", 1, m)) \/ sg = -1
           /\ ~FLess(FAdd(G("compounded", 12, m), Tol8), G("compounded", 4, m)) \/ sg = -1
           /\ ~FLess(FAdd(G("continuous", 1, m), Tol8), G("compounded", 12, m))
(* compounding over consecutive times multiplies *)
Chain == \A c \in {"compounded", "continuous"}, f \in Fs : FNear(FMul(G(c, f, m), G(c, f, 5)), G(c, f, m + 5))
Mixed == \A f \in Fs : /\ G("simple-then-compounded", f, m) \in {G("simple", f, m), G("compounded", f, m)}
                       /\ (sg = 1 => ~FLess(FAdd(G("simple-then-compounded", f, m), Tol8), G("compounded", f, m))
                                  /\ ~FLess(FAdd(G("compounded", f, m), Tol8), G("compounded-then-simple", f, m)))
Growing == [][\A c \in Compoundings \ {"compounded-then-simple"}, f \in Fs :
                 LET a == G(c, f, m)  b == Growth(c, f, sg, Ratio(p, 100), m', 12)
                 IN  IF sg = 1 THEN ~FLess(FAdd(b, Tol8), a) ELSE ~FLess(FAdd(a, Tol8), b)]_vars
=============================================================================
