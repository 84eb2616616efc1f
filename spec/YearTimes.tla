------------------------------ MODULE YearTimes -----------------------------
(* Times between dates, in years, as signed fixed-point numbers, for any of    *)
(* the day counters; and growth of interest over a fixed-point time.            *)
EXTENDS Fractions, Rates
NoTime == <<0, Zero>>
Counters == {"actual360", "actual366", "bond-basis", "european", "usa", "thirty365", "simple", "one", "isda", "isma", "actual360-inc", "actual366-inc"}
FromMicro(x) == <<x \div 1000000, (x % 1000000) \div 100, (x % 100) * 100, 0>>
(* rs, rt: the reference period, 0 = none; only ISMA looks at it *)
YearT(dc, s, t, rs, rt) ==
    CASE dc = "isda" -> SRatio(Isda(s, t), 365 * 366)
      [] dc = "isma" -> LET x == OldIsma(s, t, rs, rt)
                        IN  IF x = NoFraction THEN NoTime ELSE IF x < 0 THEN <<-1, FromMicro(-x)>> ELSE <<1, FromMicro(x)>>
      [] dc = "one" -> SInt(OneOne(s, t))
      [] OTHER -> LET p == YearPair(dc, s, t) IN SRatio(p[1], p[2])
DaysT(dc, s, t) == IF dc \in {"isda", "isma"} THEN t - s ELSE IF dc = "one" THEN OneOne(s, t) ELSE DaysOf(dc, s, t)
(* 10^-6 when a time is only known to six digits *)
TimeTol(dc) == IF dc = "isma" THEN <<0, 0, 400, 0>> ELSE <<0, 0, 1, 0>>

LaterT(f, T) == FLess(One, FMulInt(T, f))
CompoundedT(f, sg, r, T) == FPowReal(sg, FDivInt(r, f), FMulInt(T, f))
SimpleT(sg, r, T) == Plus(sg, FMul(r, T))
ContinuousT(sg, r, T) == LET g == FExp(FMul(r, T)) IN IF sg = 1 THEN g ELSE FRecip(g)
GrowthT(comp, f, sg, r, T) ==
    CASE comp = "simple" -> SimpleT(sg, r, T)
      [] comp = "compounded" -> CompoundedT(f, sg, r, T)
      [] comp = "continuous" -> ContinuousT(sg, r, T)
      [] comp = "simple-then-compounded" -> IF LaterT(f, T) THEN CompoundedT(f, sg, r, T) ELSE SimpleT(sg, r, T)
      [] comp = "compounded-then-simple" -> IF LaterT(f, T) THEN SimpleT(sg, r, T) ELSE CompoundedT(f, sg, r, T)
=============================================================================
