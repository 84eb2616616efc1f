-------------------------------- MODULE Bonds -------------------------------
(* Bonds.  A bond  [days, cal, issue, matures, steps, flows]  settles days       *)
(* business days of calendar cal after a trade, not before issue; steps is its   *)
(* principal: <<<<0, face>>, <<date, what is owed from then on>>, ...>>, the     *)
(* last owing nothing; flows are its cash flows in date order.                   *)
EXTENDS Legs, CashFlows
Owed(steps, d) == LET K == {k \in DOMAIN steps : k = 1 \/ steps[k][1] <= d}
                  IN  steps[CHOOSE k \in K : \A j \in K : j <= k][2]
Tradeable(steps, d) == Owed(steps, d) # 0
Settles(n, issue, G(_), d) == LET s == Advance(G, d, n, Days, Following, FALSE)
                              IN  IF s # Refused /\ issue > s THEN issue ELSE s
(* ---- fixed-rate bonds: the terms of their leg, from what the issuer states --- *)
(* conv = 0, rcal = 0, fdc = "" are left out; ex = <<>> unless completely given    *)
BondTerms(face, rates, dc, conv, pcal, fdc, ex) ==
    [NoTerms EXCEPT !.notionals = <<face>>,
                    !.rates = [k \in DOMAIN rates |-> [dc |-> dc, comp |-> "simple", f |-> 1, x |-> rates[k]]],
                    !.fdc = fdc, !.pcal = pcal, !.padj = IF conv = 0 THEN Following ELSE conv, !.ex = ex]
Repaid(face, percent) == SRatio(face * percent, 100)
CouponOf(c) == [pay |-> c.pay, nominal |-> c.nominal, s |-> c.s, t |-> c.t, rs |-> c.rs, rt |-> c.rt, ex |-> c.ex,
                dc |-> c.rate.dc, comp |-> c.rate.comp, f |-> c.rate.f, x |-> c.rate.x]
(* coupons in the order of their periods, then the redemption with the last of them *)
BondCoupons(t, sch, H(_, _)) == LET L == Build(t, sch, H) IN [k \in DOMAIN L |-> CouponOf(L[k])]
RedeemedOn(cs) == cs[Len(cs)].pay
FixedSteps(face, cs) == <<<<0, face>>, <<RedeemedOn(cs), 0>>>>
(* ---- what a bond is worth, per 100 of what is owed ------------------------------ *)
Per100(v, owed) == SMul(v, <<1, Ratio(100, owed)>>)
BondAccrued(steps, L, d) == IF ~Tradeable(steps, d) THEN SZero ELSE Per100(LegAccrued(L, d, FALSE), Owed(steps, d))
Dirty(steps, L, y, d) == LET p == Pv(L, y, d, d, FALSE) IN [p EXCEPT !.sum = Per100(@, Owed(steps, d))]
(* ---- discount bonds --------------------------------------------------------------- *)
(* price per 100 at discount yield y (signed) *)
AtDiscount(y, days) == SSub(SInt(100), SMul(y, SRatio(100 * days, 360)))
(* whole months of 30 days, halves away from zero *)
Abs30(n) == (2 * n + 30) \div 60
InMonths(days) == IF days < 0 THEN -Abs30(-days) ELSE Abs30(days)
=============================================================================
