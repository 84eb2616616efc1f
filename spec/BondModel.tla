------------------------------ MODULE BondModel -----------------------------
(* The life of a bond, day by day: principal is repaid in steps, flows fall due, *)
(* trades settle.  Small fixed-rate and amortising bonds over patterns of         *)
(* holidays.                                                                      *)
EXTENDS Bonds, TLC
CONSTANTS Few
Base == 43829
HolidaySets == IF Few THEN {{}, {43861, 43862}, {43889, 43890, 43891}} ELSE SUBSET {43861, 43862, 43889, 43890, 43891, 43900}
VARIABLES b, d, owed, due, set
vars == <<b, d, owed, due, set>>
H(hol, s) == s \in hol
Coupons3(hol, conv, ds) ==
    LET sch == [d |-> ds, r |-> [k \in 1..(Len(ds) - 1) |-> TRUE], n |-> 1, u |-> Months, eom |-> FALSE, conv |-> conv]
        t == BondTerms(100, <<<<1, Ratio(6, 100)>>>>, "actual360", conv, 0, "", <<>>)
        HH(k, s) == s \in hol
    IN  BondCoupons(t, sch, HH)
Flows(cs, steps) == [k \in DOMAIN cs |-> FlowOf(cs[k], Amount(cs[k]))] \o
                    [k \in 1..(Len(steps) - 1) |-> Payment(steps[k + 1][1], SInt(steps[k][2] - steps[k + 1][2]))]
(* flows in date order, coupons first among those of a day *)
RECURSIVE InOrder(_, _, _)
InOrder(L, K, acc) == IF K = {} THEN acc
                      ELSE LET k == CHOOSE k \in K : \A j \in K \ {k} : L[k].date < L[j].date \/ (L[k].date = L[j].date /\ k < j)
                           IN  InOrder(L, K \ {k}, Append(acc, L[k]))
Bond(hol, n, issue, conv, ds, amortising) ==
    LET cs == Coupons3(hol, conv, ds)
        m == Len(cs)
        steps == IF amortising THEN <<<<0, 100>>>> \o [k \in 1..m |-> <<cs[k].pay, IF k = m THEN 0 ELSE 100 - 30 * k>>]
                 ELSE FixedSteps(100, cs)
        L == Flows([k \in 1..m |-> [cs[k] EXCEPT !.nominal = steps[IF amortising THEN k ELSE 1][2]]], steps)
    IN  [hol |-> hol, days |-> n, issue |-> issue, matures |-> ds[Len(ds)], steps |-> steps, flows |-> InOrder(L, DOMAIN L, <<>>)]
Bonds0 == {Bond(hol, n, issue, conv, ds, am) : hol \in HolidaySets, n \in {0, 1, 3}, issue \in {0, Base + 4}, conv \in (IF Few THEN {Following} ELSE {1, 2, 3, 5}),
           ds \in {<<43829, 43861, 43890>>, <<43829, 43861, 43890, 43921>>}, am \in BOOLEAN}
G(s) == s \in b.hol
Init == b \in Bonds0 /\ d = Base - 3 /\ owed = 100 /\ due = DOMAIN b.flows /\ set = Settles(b.days, b.issue, G, Base - 3)
Repays(f, day) == ~IsCoupon(f) /\ f.date = day
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN b.flows[k].amount[2][1] + Sum(S \ {k})
Next == /\ d < 43925
        /\ d' = d + 1
        /\ owed' = owed - Sum({k \in DOMAIN b.flows : Repays(b.flows[k], d + 1)})
        /\ due' = {k \in due : b.flows[k].date > d + 1}
        /\ set' = Settles(b.days, b.issue, G, d + 1)
        /\ UNCHANGED b
Spec == Init /\ [][Next]_vars
(* what is owed is the original principal less what was repaid *)
OwedIsOutstanding == owed = Owed(b.steps, d)
StillToRepay == owed = Sum({k \in due : ~IsCoupon(b.flows[k])})
TradedWhileOwed == Tradeable(b.steps, d) <=> (\E k \in due : ~IsCoupon(b.flows[k]))
MaturedPaysNothing == owed = 0 => due = {}
SettlesOpen == set >= d /\ set >= b.issue /\ (set # b.issue => ~G(set))
Ordered == \A j, k \in DOMAIN b.flows : j < k => /\ b.flows[j].date <= b.flows[k].date
                                                 /\ b.flows[j].date = b.flows[k].date => ~(~IsCoupon(b.flows[j]) /\ IsCoupon(b.flows[k]))
Maturity == b.matures = LegMaturity(SelectSeq(b.flows, IsCoupon))
(* the accrued interest per 100 starts again with each coupon, and ends with the bond *)
Accrues == LET a == BondAccrued(b.steps, b.flows, d)
           IN  /\ ~SNegative(a)
               /\ (owed = 0 => a = SZero)
               /\ ~SLess(SRatio(6 * 40, 360), a)
Y(p) == [dc |-> "actual360", comp |-> "simple", f |-> 1, x |-> <<1, Ratio(p, 100)>>]
(* at par yield the price is near 100 whatever has been repaid *)
NearPar == (owed # 0 /\ d >= Base) => LET p == Dirty(b.steps, b.flows, Y(6), d) IN p.ok => SClose(SSub(p.sum, BondAccrued(b.steps, b.flows, d)), SInt(100), <<0, 2000, 0, 0>>)
RepaidGrows == [][owed' <= owed /\ due' \subseteq due /\ set' >= set]_vars
=============================================================================
