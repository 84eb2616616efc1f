------------------------------- MODULE Coupons ------------------------------
(* A coupon  c = [pay, nominal, s, t, rs, rt, ex, dc, comp, f, x]  accrues from *)
(* s to t, is paid at pay and trades ex-coupon from ex on (0 = never).  Its      *)
(* rate is x = <<sign, magnitude>>.  Amounts are signed fixed-point numbers.     *)
EXTENDS YearTimes
Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b
InterestOver(c, T) == SSub(<<1, GrowthT(c.comp, c.f, c.x[1], c.x[2], T[2])>>, <<1, One>>)      \* per unit of notional, T >= 0
Interest(c, from, to) == SMul(SInt(c.nominal), InterestOver(c, YearT(c.dc, from, to, c.rs, c.rt)))
Known(c, from, to) == LET T == YearT(c.dc, from, to, c.rs, c.rt) IN T # NoTime /\ ~SNegative(T)
Amount(c) == Interest(c, c.s, c.t)
Accruing(c, d) == d > c.s /\ d <= c.pay
ExCoupon(c, d) == c.ex # 0 /\ c.ex <= d
(* the days whose interest is accrued at d, as an interval and a sign *)
AccrualSpan(c, d) == IF ~Accruing(c, d) THEN <<1, c.s, c.s>>
                     ELSE IF ExCoupon(c, d) THEN <<-1, d, Greater(d, c.t)>>
                     ELSE <<1, c.s, Lesser(d, c.t)>>
Signed(sg, x) == IF sg = 1 THEN x ELSE SNeg(x)
Accrued(c, d) == IF ~Accruing(c, d) THEN SZero
                 ELSE LET p == AccrualSpan(c, d) IN Signed(p[1], Interest(c, p[2], p[3]))
AccruedPeriod(c, d) == IF ~Accruing(c, d) THEN SZero
                       ELSE LET p == AccrualSpan(c, d) IN Signed(p[1], YearT(c.dc, p[2], p[3], c.rs, c.rt))
AccruedDays(c, d) == IF ~Accruing(c, d) THEN 0 ELSE DaysT(c.dc, c.s, Lesser(d, c.t))
=============================================================================
