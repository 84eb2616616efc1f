--------------------------- MODULE CouponRecords ----------------------------
(* Judges the accrual of recorded coupons on a run of dates (C27).              *)
EXTENDS Coupons, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
Sane(v) == v # <<>> /\ v[1] \in {-1, 1}
SV(v) == <<v[1], <<v[2], v[3], v[4], v[5]>>>>
Coupon(x) == [x EXCEPT !.x = SV(x.x)]
Money(c) == FMulInt(TimeTol(c.dc), c.nominal)
IsAmount(c, v, e) == Sane(v) /\ SClose(SV(v), e, Money(c))
IsTime(c, v, e) == Sane(v) /\ SClose(SV(v), e, TimeTol(c.dc))
BadCoupon(r) ==
    LET c == Coupon(r.c) IN
    (IF ~Known(c, c.s, c.t) THEN {}
     ELSE Fail("amount", IsAmount(c, r.amount, Amount(c)))
          \cup Fail("accrual-period", IsTime(c, r.period, YearT(c.dc, c.s, c.t, c.rs, c.rt))))
    \cup Fail("accrual-days", r.days = DaysT(c.dc, c.s, c.t))
    \cup Fail("accessors", r.ok = 1)
    \cup UNION { LET q == r.q[k]
                     p == AccrualSpan(c, q.d)
                 IN  Fail("accrued-days", q.days = AccruedDays(c, q.d))
                     \cup (IF Accruing(c, q.d) /\ ~Known(c, p[2], p[3]) THEN {}
                           ELSE Fail("accrued-amount", IsAmount(c, q.amount, Accrued(c, q.d)))
                                \cup Fail("accrued-period", IsTime(c, q.period, AccruedPeriod(c, q.d))))
                     \cup Fail("shared", q.ok = 1)
               : k \in DOMAIN r.q }
Bad(r) == CASE r.k = "coupon" -> BadCoupon(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
