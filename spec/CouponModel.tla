----------------------------- MODULE CouponModel ----------------------------
(* A coupon watched day by day from before its accrual to after its payment.   *)
EXTENDS Coupons, TLC
CONSTANTS Starts, Lengths
VARIABLES c, d
vars == <<c, d>>
DCs == {"actual360", "bond-basis", "european", "isda", "isma"}
Make(dc, comp, x, s, n, lag, ex) ==
    [pay |-> s + n + lag, nominal |-> 100, s |-> s, t |-> s + n, rs |-> s, rt |-> s + n,
     ex |-> IF ex = 0 THEN 0 ELSE s + n + lag - ex, dc |-> dc, comp |-> comp, f |-> 2, x |-> x]
Init == /\ c \in {Make(dc, comp, <<1, Ratio(p, 100)>>, s, n, lag, ex) : dc \in DCs, comp \in {"simple", "compounded"},
                  p \in {0, 6}, s \in Starts, n \in Lengths, lag \in {0, 2}, ex \in {0, 3, 9}}
        /\ d = c.s - 2
Next == d < c.pay + 2 /\ d' = d + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Tol == <<0, 0, 3000, 0>>
ZeroOutside == (d <= c.s \/ d > c.pay) => Accrued(c, d) = SZero /\ AccruedDays(c, d) = 0 /\ AccruedPeriod(c, d) = SZero
FullAtEnd == (d >= c.t /\ d <= c.pay /\ ~ExCoupon(c, d)) => SClose(Accrued(c, d), Amount(c), Tol)
(* once ex-coupon, the accrual and the interest still to come cancel out *)
ExCancels == (Accruing(c, d) /\ ExCoupon(c, d) /\ c.comp = "simple" /\ d <= c.t) =>
                 SClose(SAdd(Interest(c, c.s, d), SNeg(Accrued(c, d))), Amount(c),
                        IF c.dc \in {"bond-basis", "european"} THEN FInt(1) ELSE Tol)
Signs == /\ (ExCoupon(c, d) => ~SLess(SZero, Accrued(c, d)))
         /\ (~ExCoupon(c, d) => ~SNegative(Accrued(c, d)))
DaysCounted == AccruedDays(c, d) >= 0 /\ (c.dc = "actual360" => AccruedDays(c, d) <= c.t - c.s)
Growing == [][~ExCoupon(c, d') /\ Accruing(c, d') => ~SLess(Accrued(c, d'), SSub(Accrued(c, d), <<1, Tol>>))]_vars
NotPast == [][Accruing(c, d') => Accrued(c, d')[2] # Zero \/ c.x[2] = Zero \/ c.dc # "actual360" \/ ExCoupon(c, d')]_vars
=============================================================================
