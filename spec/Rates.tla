------------------------------- MODULE Rates --------------------------------
(* Compounding conventions.  A rate is a sign and a fixed-point magnitude, a   *)
(* time the fraction n/d of a year, a frequency the number of periods a year.  *)
EXTENDS FixedPoint
Compoundings == {"simple", "compounded", "continuous", "simple-then-compounded", "compounded-then-simple"}
Periodic(comp) == comp \notin {"simple", "continuous"}
(* combinations that make no sense *)
Allowed(comp, f) == ~Periodic(comp) \/ f > 0
Scaled(r, n, d) == FDivInt(FMulInt(r, n), d)                  \* r * n/d
Plus(sg, x) == IF sg = 1 THEN FAdd(One, x) ELSE FSub(One, x)   \* 1 + sg x
Simple(sg, r, n, d) == Plus(sg, Scaled(r, n, d))
Compounded(sg, r, f, n, d) ==
    LET x == FDivInt(r, f)
        e == f * n
    IN  FMul(FPow(Plus(sg, x), e \div d), FPowFrac(sg, x, e % d, d))
Continuous(sg, r, n, d) == LET g == FExp(Scaled(r, n, d)) IN IF sg = 1 THEN g ELSE FRecip(g)
(* is n/d beyond the first compounding period 1/f *)
Later(f, n, d) == f * n > d
Growth(comp, f, sg, r, n, d) ==
    CASE comp = "simple" -> Simple(sg, r, n, d)
      [] comp = "compounded" -> Compounded(sg, r, f, n, d)
      [] comp = "continuous" -> Continuous(sg, r, n, d)
      [] comp = "simple-then-compounded" -> IF Later(f, n, d) THEN Compounded(sg, r, f, n, d) ELSE Simple(sg, r, n, d)
      [] comp = "compounded-then-simple" -> IF Later(f, n, d) THEN Simple(sg, r, n, d) ELSE Compounded(sg, r, f, n, d)
=============================================================================
