------------------------------ MODULE CashFlows -----------------------------
(* Cash flows and legs.  A flow  [date, amount, s, t, rs, rt, ex, c]  is paid    *)
(* on date; s..t is its accrual period, rs..rt its reference period (0 = none),  *)
(* ex its ex-coupon date (0 = never), c the coupon it is (or NoCoupon).  The     *)
(* amount is a signed fixed-point number.                                        *)
EXTENDS Coupons
NoCoupon == [none |-> TRUE]
IsCoupon(f) == f.s # 0
FlowOf(c, amount) == [date |-> c.pay, amount |-> amount, s |-> c.s, t |-> c.t, rs |-> c.rs, rt |-> c.rt, ex |-> c.ex, c |-> c]
Payment(date, amount) == [date |-> date, amount |-> amount, s |-> 0, t |-> 0, rs |-> 0, rt |-> 0, ex |-> 0, c |-> NoCoupon]

Occurred(f, d, incl) == f.date < d \/ (f.date = d /\ ~incl)
TradesEx(f, d) == f.ex # 0 /\ f.ex <= d
(* index of the first flow of L that has not occurred, 0 if there is none *)
NextFlow(L, d, incl) == LET K == {k \in DOMAIN L : ~Occurred(L[k], d, incl)}
                        IN  IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : k <= j
LegMaturity(L) == LET E == {IF IsCoupon(L[k]) THEN L[k].t ELSE L[k].date : k \in DOMAIN L}
                  IN  IF E = {} THEN Refused ELSE CHOOSE x \in E : \A y \in E : y <= x
(* the flows paid together with the next one *)
Together(L, d, incl) == LET n == NextFlow(L, d, incl)
                        IN  IF n = 0 THEN {} ELSE {k \in n..Len(L) : L[k].date = L[n].date}
FlowAccrued(f, d) == IF IsCoupon(f) THEN Accrued(f.c, d) ELSE SZero
RECURSIVE SumAccrued(_, _, _)
SumAccrued(L, K, d) == IF K = {} THEN SZero
                       ELSE LET k == CHOOSE k \in K : TRUE IN SAdd(FlowAccrued(L[k], d), SumAccrued(L, K \ {k}, d))
LegAccrued(L, d, incl) == SumAccrued(L, Together(L, d, incl), d)
LegAccruedDays(L, d, incl) == LET n == NextFlow(L, d, incl) IN IF n = 0 THEN 0 ELSE AccruedDays(L[n].c, d)
LegAccruedPeriod(L, d, incl) == LET n == NextFlow(L, d, incl) IN IF n = 0 THEN SZero ELSE AccruedPeriod(L[n].c, d)

(* ---- present value: the discount factor is carried from flow to flow --------- *)
(* a yield is y = [dc, comp, f, x], x = <<sign, magnitude>>                        *)
StepTime(f, dc, npvdate, last) ==
    LET fake == f.rs = 0 /\ f.rt = 0
        rs == IF ~fake THEN f.rs ELSE IF last = npvdate THEN AddMonths(f.date, -12) ELSE last
        rt == IF ~fake THEN f.rt ELSE f.date
    IN  IF f.s # 0 /\ last # f.s
        THEN LET a == YearT(dc, f.s, f.date, rs, rt)
                 b == YearT(dc, f.s, last, rs, rt)
             IN  IF a = NoTime \/ b = NoTime THEN NoTime ELSE SSub(a, b)
        ELSE YearT(dc, last, f.date, rs, rt)
Pv0(npvdate) == [sum |-> SZero, disc |-> One, last |-> npvdate, time |-> SZero, dur |-> SZero, ok |-> TRUE]
(* yields so negative that the growth over one period, or over all, comes near zero are not judged *)
Deep(x, T, before) == FLess(<<0, 5000, 0, 0>>, FMul(x, T)) \/ FLess(<<2, 0, 0, 0>>, FMul(x, FAdd(before, T)))
(* growth beyond e^11 leaves the range of the numbers used here *)
TooFar(x, T) == FLess(<<11, 0, 0, 0>>, FMul(x, T))
PvStep(p, f, y, settle, npvdate, incl) ==
    IF ~p.ok \/ Occurred(f, settle, incl) THEN p
    ELSE LET T == StepTime(f, y.dc, npvdate, p.last)
         IN  IF T = NoTime \/ SNegative(T) \/ TooFar(y.x[2], T[2]) \/ (y.x[1] = -1 /\ Deep(y.x[2], T[2], p.time[2])) THEN [p EXCEPT !.ok = FALSE]
             ELSE LET disc == FMul(p.disc, FRecip(GrowthT(y.comp, y.f, y.x[1], y.x[2], T[2])))
                      time == SAdd(p.time, T)
                      v == IF TradesEx(f, settle) THEN SZero ELSE SMul(f.amount, <<1, disc>>)
                  IN  [sum |-> SAdd(p.sum, v), disc |-> disc, last |-> f.date, time |-> time,
                       dur |-> SAdd(p.dur, SMul(v, time)), ok |-> TRUE]
RECURSIVE PvRun(_, _, _, _, _, _, _)
PvRun(p, L, k, y, settle, npvdate, incl) ==
    IF k > Len(L) THEN p ELSE PvRun(PvStep(p, L[k], y, settle, npvdate, incl), L, k + 1, y, settle, npvdate, incl)
Pv(L, y, settle, npvdate, incl) == PvRun(Pv0(npvdate), L, 1, y, settle, npvdate, incl)
(* ---- each flow discounted over its whole time, and the slope of that value -------- *)
Dur0(npvdate) == [sum |-> SZero, slope |-> SZero, last |-> npvdate, time |-> SZero, ok |-> TRUE]
SimpleAt(y, T) == \/ y.comp = "simple" \/ (y.comp = "simple-then-compounded" /\ ~LaterT(y.f, T))
                  \/ (y.comp = "compounded-then-simple" /\ LaterT(y.f, T))
(* minus the relative slope of the discount factor B = 1/growth over time T *)
Steepness(y, T, B) == IF y.comp = "continuous" THEN T
                      ELSE IF SimpleAt(y, T) THEN FMul(T, B)
                      ELSE FMul(T, FRecip(Plus(y.x[1], FDivInt(y.x[2], y.f))))
DurStep(p, f, y, settle, npvdate, incl) ==
    IF ~p.ok \/ Occurred(f, settle, incl) THEN p
    ELSE LET T == StepTime(f, y.dc, npvdate, p.last)
             T1 == IF T = NoTime THEN NoTime ELSE SAdd(p.time, T)
         IN  IF T = NoTime \/ SNegative(T) \/ TooFar(y.x[2], T1[2]) \/ (y.x[1] = -1 /\ Deep(y.x[2], T1[2], Zero)) THEN [p EXCEPT !.ok = FALSE]
             ELSE LET B == FRecip(GrowthT(y.comp, y.f, y.x[1], y.x[2], T1[2]))
                      v == IF TradesEx(f, settle) THEN SZero ELSE SMul(f.amount, <<1, B>>)
                  IN  [sum |-> SAdd(p.sum, v), slope |-> SAdd(p.slope, SMul(v, <<1, Steepness(y, T1[2], B)>>)),
                       last |-> f.date, time |-> T1, ok |-> TRUE]
RECURSIVE DurRun(_, _, _, _, _, _, _)
DurRun(p, L, k, y, settle, npvdate, incl) ==
    IF k > Len(L) THEN p ELSE DurRun(DurStep(p, L[k], y, settle, npvdate, incl), L, k + 1, y, settle, npvdate, incl)
Dur(L, y, settle, npvdate, incl) == DurRun(Dur0(npvdate), L, 1, y, settle, npvdate, incl)
(* price times modified duration, -dP/dy, for yields whose discounts multiply up *)
MinusSlope(p, y) == IF y.comp = "continuous" THEN p.dur
                    ELSE SMul(p.dur, <<1, FRecip(Plus(y.x[1], FDivInt(y.x[2], y.f)))>>)
RECURSIVE SumRemaining(_, _, _, _)
SumRemaining(L, k, settle, incl) ==
    IF k > Len(L) THEN SZero
    ELSE SAdd(IF Occurred(L[k], settle, incl) \/ TradesEx(L[k], settle) THEN SZero ELSE L[k].amount, SumRemaining(L, k + 1, settle, incl))
=============================================================================
