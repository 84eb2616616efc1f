---------------------------- MODULE DayCountModel ---------------------------
(* Interest accrues day by day: from a start day the end day advances one day  *)
(* at a time, accumulating the weight of each day.  The counters' closed forms *)
(* must agree with the accumulation and satisfy the laws users rely on.        *)
EXTENDS DayCounts
CONSTANTS Froms, Span
VARIABLES s, t, wt, half        \* wt: ISDA weight so far;  half: ISMA fraction so far (semiannual)
Reg(k, a) == AddMonths(a, 6 * k)               \* the semiannual grid through a
Init == s \in Froms /\ t = s /\ wt = 0 /\ half = [k |-> 0, d |-> 0]
(* within the k-th coupon, d days elapsed *)
Next == /\ t < s + Span /\ UNCHANGED s /\ t' = t + 1 /\ wt' = wt + DayWeight(t)
        /\ half' = IF Reg(half.k + 1, s) = t + 1 THEN [k |-> half.k + 1, d |-> 0] ELSE [half EXCEPT !.d = @ + 1]
Spec == Init /\ [][Next]_<<s, t, wt, half>>
IsdaIsTheSum == Isda(s, t) = wt /\ Isda(t, s) = -wt
(* within one reference period the elapsed days count; each whole coupon is half a year *)
IsmaIsTheSum ==
    t > s => LET a == Reg(half.k, s)  b == Reg(half.k + 1, s)
                 e == half.k * (Scale \div 2) + (half.d * Scale) \div (2 * (b - a))
                 o == OldIsma(s, t, s, Reg(1, s))
             IN  (* a start at the end of a month loses its day as the reference periods roll on *)
                 /\ DayOf(s) <= 28 => o - e \in -3..3
                 /\ Isma([k \in 1..8 |-> Reg(k - 1, s)], s, t) - e \in -8..8
AfbLaws == LET x == Afb(s, t)
           IN  /\ Afb(t, s) = -x
               /\ x >= (t - s) * 365 - 366 * 3 /\ x <= (t - s) * 366 + 366 * 3
               /\ AfbSteps(s, t, 0)[1] \in {YearOf(t) - YearOf(s), YearOf(t) - YearOf(s) - 1}
Additive360 == \A x \in {s, t} : \A m \in {s + 17, s + 200} :
    /\ EuroBasis(s, t) = EuroBasis(s, m) + EuroBasis(m, t)
    /\ Italian(s, t) = Italian(s, m) + Italian(m, t)
    /\ Plain(s, t) = Plain(s, m) + Plain(m, t)
    /\ German(s, t, 0) = German(s, m, 0) + German(m, t, 0)
    /\ Isda(s, t) = Isda(s, m) + Isda(m, t)
Antisymmetric == /\ EuroBasis(t, s) = -EuroBasis(s, t) /\ Italian(t, s) = -Italian(s, t)
                 /\ Plain(t, s) = -Plain(s, t) /\ OneOne(s, t) = 1
(* conventions differ from the plain count by at most the month-end corrections *)
NearPlain == \A x \in {BondBasis(s, t), USBasis(s, t), EuroBasis(s, t), Italian(s, t), German(s, t, t), Nasd(s, t), Simple360(s, t)} :
                 x - Plain(s, t) \in -3..3
WholeMonths == DayOf(s) = DayOf(t) => Simple360(s, t) % 30 = 0
MonthsExact == (DayOf(s) <= 27 /\ DayOf(t) = DayOf(s)) =>
    LET m == 12 * (YearOf(t) - YearOf(s)) + MonthOf(t) - MonthOf(s)
    IN  {BondBasis(s, t), USBasis(s, t), EuroBasis(s, t), Italian(s, t), German(s, t, t), Nasd(s, t), Simple360(s, t)} = {30 * m}
=============================================================================
