---------------------------- MODULE CashFlowModel ---------------------------
(* The life of a small leg: the settlement date moves on day by day; flows      *)
(* occur, coupons go ex; present values follow.                                  *)
EXTENDS CashFlows, TLC
CONSTANTS Gaps, Amounts, Comps
VARIABLES leg, y, incl, d, remaining
vars == <<leg, y, incl, d, remaining>>
Base == 43800
C(s, t, ex) == [pay |-> t, nominal |-> 100, s |-> s, t |-> t, rs |-> s, rt |-> t, ex |-> ex,
                dc |-> "actual360", comp |-> "simple", f |-> 1, x |-> <<1, Ratio(6, 100)>>]
CouponFlow(s, t, ex) == LET c == C(s, t, ex) IN FlowOf(c, Amount(c))
(* odd amounts stand for payments the other way *)
Odd == {IF a % 2 = 1 THEN -a ELSE a : a \in Amounts}
Legs == {<<CouponFlow(Base, Base + g, IF e = 0 THEN 0 ELSE Base + g - e), Payment(Base + g + h, SInt(a)),
           CouponFlow(Base + g, Base + g + h, 0), Payment(Base + g + h + i, SInt(b))>>
         : g \in Gaps \ {0}, h \in Gaps \ {0}, i \in Gaps, e \in {0, 2}, a \in Odd, b \in Odd}
Yields == {[dc |-> "actual360", comp |-> c, f |-> 2, x |-> <<sg, Ratio(p, 100)>>] : c \in Comps, p \in {0, 10}, sg \in {1, -1}}
Init == leg \in Legs /\ y \in Yields /\ incl \in BOOLEAN /\ d = Base - 1 /\ remaining = 1..4
Next == /\ d < Base + 40
        /\ d' = d + 1
        /\ remaining' = {k \in remaining : ~Occurred(leg[k], d + 1, incl)}
        /\ UNCHANGED <<leg, y, incl>>
Spec == Init /\ [][Next]_vars
P(yy) == Pv(leg, yy, d, d, incl)
More(yy) == [yy EXCEPT !.x = SAdd(@, <<1, Ratio(1, 100)>>)]
Tol == <<0, 0, 1, 0>>
Remains == remaining = {k \in 1..4 : ~Occurred(leg[k], d, incl)}
NextIsFirst == NextFlow(leg, d, incl) = IF remaining = {} THEN 0 ELSE CHOOSE k \in remaining : \A j \in remaining : k <= j
InclusionOnlyOnTheDay == (\A k \in 1..4 : leg[k].date # d) => NextFlow(leg, d, TRUE) = NextFlow(leg, d, FALSE)
Defined == P(y).ok
ZeroYield == y.x[2] = Zero => SClose(P(y).sum, SumRemaining(leg, 1, d, incl), Tol)
Positive == \A k \in remaining : ~SNegative(leg[k].amount)
Falls == (Positive /\ d > Base) => ~SLess(SAdd(P(y).sum, <<1, Tol>>), P(More(y)).sum)
(* scaling all amounts scales the value *)
Doubled == [k \in 1..4 |-> [leg[k] EXCEPT !.amount = SAdd(@, @)]]
Linear == SClose(Pv(Doubled, y, d, d, incl).sum, SAdd(P(y).sum, P(y).sum), Tol)
(* without flows nothing is worth anything *)
Empty == remaining = {} => P(y).sum = SZero
(* the slope of the price: between the secants on either side *)
Less(yy) == [yy EXCEPT !.x = SSub(@, <<1, Ratio(1, 100)>>)]
Convex == (Positive /\ y.comp \in {"compounded", "continuous"}) =>
            LET s == SMul(MinusSlope(P(y), y), <<1, Ratio(1, 100)>>)
            IN  /\ ~SLess(SAdd(s, <<1, Tol>>), SSub(P(y).sum, P(More(y)).sum))
                /\ ~SLess(SAdd(SSub(P(Less(y)).sum, P(y).sum), <<1, Tol>>), s)
Shrinks == [][remaining' \subseteq remaining]_vars
LastDate == LegMaturity(leg) = leg[4].date
(* each flow discounted over its whole time: the same value where discounts multiply up, and its slope *)
D(yy) == Dur(leg, yy, d, d, incl)
SameValue == y.comp \in {"compounded", "continuous"} /\ D(y).ok /\ P(y).ok =>
                SClose(D(y).sum, P(y).sum, Tol) /\ SClose(D(y).slope, MinusSlope(P(y), y), <<0, 0, 10, 0>>)
ConvexToo == (Positive /\ D(y).ok /\ D(More(y)).ok /\ D(Less(y)).ok) =>
            LET s == SMul(D(y).slope, <<1, Ratio(1, 100)>>)
            IN  /\ ~SLess(SAdd(s, <<1, Tol>>), SSub(D(y).sum, D(More(y)).sum))
                /\ ~SLess(SAdd(SSub(D(Less(y)).sum, D(y).sum), <<1, Tol>>), s)
=============================================================================
