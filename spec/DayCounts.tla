------------------------------ MODULE DayCounts -----------------------------
(* Day counters.  Fractions are exact integers over a common denominator      *)
(* (360, 365, 366, or 133590 = 365 * 366), or fixed-point with six digits     *)
(* where the denominator varies (ISMA).                                       *)
EXTENDS BusinessDays

(* ---- 30/360 and 30/365 ---------------------------------------------------- *)
LastOfFeb(v) == v[2] = 2 /\ v[1] = MonthLen(2, v[3])
D360(v, w, a, b) == 360 * (w[3] - v[3]) + 30 * (w[2] - v[2]) + (b - a)      \* a, b: corrected days
Cap30(d) == IF d = 31 THEN 30 ELSE d
BondBasis(s, t) == LET v == Civil(s)  w == Civil(t)
                       a == Cap30(v[1])
                   IN  D360(v, w, a, IF w[1] = 31 /\ a = 30 THEN 30 ELSE w[1])
USBasis(s, t) == LET v == Civil(s)  w == Civil(t)
                     a == Cap30(v[1])
                     b == IF w[1] = 31 /\ a = 30 THEN 30 ELSE w[1]
                 IN  D360(v, w, IF LastOfFeb(v) THEN 30 ELSE a, IF LastOfFeb(v) /\ LastOfFeb(w) THEN 30 ELSE b)
EuroBasis(s, t) == LET v == Civil(s)  w == Civil(t) IN D360(v, w, Cap30(v[1]), Cap30(w[1]))
Italian(s, t) == LET C(x) == IF x[2] = 2 /\ x[1] > 27 THEN 30 ELSE Cap30(x[1])
                     v == Civil(s)  w == Civil(t)
                 IN  D360(v, w, C(v), C(w))
German(s, t, term) == LET v == Civil(s)  w == Civil(t)
                      IN  D360(v, w, IF LastOfFeb(v) THEN 30 ELSE Cap30(v[1]),
                                     IF LastOfFeb(w) /\ t # term THEN 30 ELSE Cap30(w[1]))
Nasd(s, t) == LET v == Civil(s)  w == Civil(t)
                  a == Cap30(v[1])
              IN  IF w[1] # 31 THEN D360(v, w, a, w[1])
                  ELSE IF a = 30 THEN D360(v, w, a, 30)
                  ELSE D360(v, w, a, 31)       \* the 1st of the next month
Plain(s, t) == LET v == Civil(s)  w == Civil(t) IN D360(v, w, v[1], w[1])
(* the simple counter, over 360 *)
Simple360(s, t) ==
    LET v == Civil(s)  w == Civil(t)
    IN  IF v[1] = w[1] \/ (v[1] > w[1] /\ IsEndOfMonth(t)) \/ (v[1] < w[1] /\ IsEndOfMonth(s))
        THEN 360 * (w[3] - v[3]) + 30 * (w[2] - v[2])
        ELSE BondBasis(s, t)
OneOne(s, t) == IF t >= s THEN 1 ELSE -1

(* ---- actual/actual, over 133590 ------------------------------------------- *)
Q == 133590
DayWeight(s) == IF IsLeap(YearOf(s)) THEN 365 ELSE 366        \* 1/366 or 1/365
(* weight of all days before s since 1 Jan 1900 *)
WeightBefore(s) == LET v == Civil(s)
                       doy == DayOfYear(v[1], v[2], v[3])
                   IN  Q * (v[3] - MinYear) + (doy - 1) * (IF IsLeap(v[3]) THEN 365 ELSE 366)
Isda(s, t) == WeightBefore(t) - WeightBefore(s)
(* AFB: whole years backward from the end; the 28th of February of a leap year, when reached,
   stands for its end *)
YearBefore(t) == LET v == Civil(t)
                 IN  IF v[3] = MinYear THEN Refused
                     ELSE LET b == AddMonths(t, -12)
                          IN  IF DayOf(b) = 28 /\ MonthOf(b) = 2 /\ IsLeap(YearOf(b)) THEN b + 1 ELSE b
RECURSIVE AfbSteps(_, _, _)
AfbSteps(s, t, n) == LET b == IF t > s THEN YearBefore(t) ELSE Refused
                     IN  IF b # Refused /\ b >= s THEN AfbSteps(s, b, n + 1) ELSE <<n, t>>
HasLeapDay(s, t) == \E y \in YearOf(s)..YearOf(t) :        \* a 29 February in s .. t-1
                       IsLeap(y) /\ Serial(29, 2, y) >= s /\ Serial(29, 2, y) < t
AfbUp(s, t) == LET e == AfbSteps(s, t, 0)
               IN  e[1] * Q + (e[2] - s) * (IF HasLeapDay(s, e[2]) THEN 365 ELSE 366)
Afb(s, t) == IF s = t THEN 0 ELSE IF s < t THEN AfbUp(s, t) ELSE -AfbUp(t, s)

(* ---- ISMA, fixed point ------------------------------------------------------ *)
Scale == 1000000
RECURSIVE Digits(_, _, _, _)
Digits(r, d, k, acc) == IF k = 0 THEN acc
                        ELSE Digits((10 * r) % d, d, k - 1, 10 * acc + ((10 * r) \div d))
Fixed(n, d) == (n \div d) * Scale + Digits(n % d, d, 6, 0)        \* n/d for n >= 0
NoFraction == -999999999
MonthsIn(days) == (24 * days + 365) \div 730                      \* rounded number of months
YearFrom(s) == AddMonths(s, 12)
(* with an explicit reference period (0 = not given); s < t *)
RECURSIVE OldIsmaUp(_, _, _, _)
OldIsmaUp(s, t, rs0, re0) ==
    LET a == IF rs0 = 0 THEN s ELSE rs0
        b == IF re0 = 0 THEN t ELSE re0
    IN  IF ~(b > a /\ b > s) THEN NoFraction
        ELSE LET m0 == MonthsIn(b - a)
                 rs == IF m0 = 0 THEN s ELSE a
                 re == IF m0 = 0 THEN YearFrom(s) ELSE b
                 m == IF m0 = 0 THEN 12 ELSE m0
                 Plus(x, y) == IF x = NoFraction \/ y = NoFraction THEN NoFraction ELSE x + y
             IN  IF re = Refused THEN NoFraction
                 ELSE IF t <= re
                 THEN IF s >= rs THEN Fixed(m * (t - s), 12 * (re - rs))
                      ELSE LET pr == AddMonths(rs, -m)
                           IN  IF pr = Refused THEN NoFraction
                               ELSE IF t > rs
                               THEN Plus(OldIsmaUp(s, rs, pr, rs), OldIsmaUp(rs, t, rs, re))
                               ELSE OldIsmaUp(s, t, pr, rs)
                 ELSE IF s < rs THEN NoFraction
                 ELSE LET K == 0..((t - re) \div (28 * m) + 1)
                          (* whole periods after the reference end *)
                          W == {k \in K : AddMonths(re, m * (k + 1)) # Refused /\ AddMonths(re, m * (k + 1)) <= t}
                          k == Cardinality(W)
                          ns == AddMonths(re, m * k)
                          ne == AddMonths(re, m * (k + 1))
                      IN  IF ne = Refused THEN NoFraction
                          ELSE Plus(Plus(OldIsmaUp(s, re, rs, re), Fixed(m * k, 12)),
                                    IF ns = t THEN 0 ELSE OldIsmaUp(ns, t, ns, ne))
OldIsma(s, t, rs, re) == IF s = t THEN 0
                         ELSE IF s < t THEN OldIsmaUp(s, t, rs, re)
                         ELSE LET x == OldIsmaUp(t, s, rs, re) IN IF x = NoFraction THEN x ELSE -x
(* with a schedule sc = [d, r] and its options c = [n, u, conv, eom] *)
NotionalDates(H(_), sc, c) ==
    LET n == Len(sc.d)
        Back(x) == Advance(H, x, -c.n, c.u, c.conv, c.eom)
        Fwd(x) == Advance(H, x, c.n, c.u, c.conv, c.eom)
        nf == Back(sc.d[2])
        nl == Fwd(sc.d[n - 1])
        front == IF sc.r[1] THEN <<sc.d[1]>> ELSE IF nf > sc.d[1] THEN <<Back(nf), nf>> ELSE <<nf>>
        rear == IF n = 2 \/ sc.r[n - 1] THEN <<sc.d[n]>> ELSE IF nl < sc.d[n] THEN <<nl, Fwd(nl)>> ELSE <<nl>>
    IN  front \o SubSeq(sc.d, 2, n - 1) \o rear
PartOf(s, t, a, b) ==        \* s..t within the reference period a..b
    IF b - a < 16 THEN Fixed(t - s, YearFrom(s) - s) ELSE Fixed((t - s) * MonthsIn(b - a), 12 * (b - a))
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
RECURSIVE IsmaSum(_, _, _, _)
IsmaSum(L, s, t, k) == IF k = Len(L) THEN 0
                       ELSE (IF s < L[k + 1] /\ t > L[k]
                             THEN PartOf(Max2(s, L[k]), Min2(t, L[k + 1]), L[k], L[k + 1]) ELSE 0)
                            + IsmaSum(L, s, t, k + 1)
Lowest(L) == CHOOSE x \in {L[k] : k \in DOMAIN L} : \A k \in DOMAIN L : x <= L[k]
Highest(L) == CHOOSE x \in {L[k] : k \in DOMAIN L} : \A k \in DOMAIN L : x >= L[k]
Isma(L, s, t) ==
    IF s = t THEN 0
    ELSE LET a == Min2(s, t)  b == Max2(s, t)
         IN  IF a < Lowest(L) \/ b > Highest(L) THEN NoFraction
             ELSE IF s < t THEN IsmaSum(L, a, b, 1) ELSE -IsmaSum(L, a, b, 1)
=============================================================================
