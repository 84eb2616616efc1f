------------------------------- MODULE Periods ------------------------------
(* Periods as amounts of time: a period [n, u] denotes n*12 or n months, or   *)
(* n*7 or n days.  Zero length denotes "nothing" in either family.            *)
EXTENDS Dates

Fam(p) == IF p.n = 0 THEN "zero" ELSE IF p.u \in {Months, Years} THEN "months" ELSE "days"
Base(p) == IF p.u = Years THEN 12 * p.n ELSE IF p.u = Weeks THEN 7 * p.n ELSE p.n
Amount(f, b) == IF b = 0 THEN <<"zero", 0>> ELSE <<f, b>>
Denotes(p) == Amount(Fam(p), Base(p))
NoPeriod == <<"refused", 0>>

(* what the operations mean *)
Mix(p, q) == Fam(p) # "zero" /\ Fam(q) # "zero" /\ Fam(p) # Fam(q)
Common(p, q) == IF Fam(p) = "zero" THEN Fam(q) ELSE Fam(p)
Sum(p, q) == IF Mix(p, q) THEN NoPeriod ELSE Amount(Common(p, q), Base(p) + Base(q))
Negated(p) == [p EXCEPT !.n = -@]
Difference(p, q) == Sum(p, Negated(q))
Times(p, k) == Amount(Fam(p), k * Base(p))
(* exact division *)
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Quotient(p, k) == IF k = 0 THEN NoPeriod
                  ELSE IF Abs(Base(p)) % Abs(k) # 0 THEN NoPeriod
                  ELSE Amount(Fam(p), Sgn(k) * Sgn(Base(p)) * (Abs(Base(p)) \div Abs(k)))
Divides(k, n) == k # 0 /\ Abs(n) % Abs(k) = 0
Share(n, k) == Sgn(k) * Sgn(n) * (Abs(n) \div Abs(k))
Normal(p) == IF p.n = 0 THEN [n |-> 0, u |-> Days]
             ELSE IF p.u = Months /\ p.n % 12 = 0 THEN [n |-> p.n \div 12, u |-> Years]
             ELSE IF p.u = Days /\ p.n % 7 = 0 THEN [n |-> p.n \div 7, u |-> Weeks]
             ELSE p

(* the number of days a period can span *)
MinDays(p) == CASE p.n = 0 -> 0
                [] p.u = Days -> p.n
                [] p.u = Weeks -> 7 * p.n
                [] p.u = Months -> IF p.n > 0 THEN 28 * p.n ELSE 31 * p.n
                [] p.u = Years -> IF p.n > 0 THEN 365 * p.n ELSE 366 * p.n
MaxDays(p) == -MinDays(Negated(p))
Exact(p, q) == ~Mix(p, q)
Order(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
(* -1, 0, 1, or 2 where the two families leave it open *)
Compare(p, q) == IF Exact(p, q) THEN Order(Base(p), Base(q))
                 ELSE IF MaxDays(p) < MinDays(q) THEN -1
                 ELSE IF MaxDays(q) < MinDays(p) THEN 1
                 ELSE 2

(* frequencies by their integer codes *)
NoFrequency == -1  Once == 0  Annual == 1  Semiannual == 2  EveryFourthMonth == 3  Quarterly == 4
Bimonthly == 6  Monthly == 12  EveryFourthWeek == 13  Biweekly == 26  Weekly == 52  Daily == 365
OtherFrequency == 999
Named == {Annual, Semiannual, EveryFourthMonth, Quarterly, Bimonthly, Monthly, EveryFourthWeek,
          Biweekly, Weekly, Daily}
Frequencies == Named \cup {NoFrequency, Once, OtherFrequency}
PaymentInterval(f) ==
    CASE f = NoFrequency -> [n |-> 0, u |-> Days]
      [] f = Once -> [n |-> 0, u |-> Years]
      [] f = Annual -> [n |-> 1, u |-> Years]
      [] f \in {Semiannual, EveryFourthMonth, Quarterly, Bimonthly, Monthly} -> [n |-> 12 \div f, u |-> Months]
      [] f \in {EveryFourthWeek, Biweekly, Weekly} -> [n |-> 52 \div f, u |-> Weeks]
      [] f = Daily -> [n |-> 1, u |-> Days]
(* the frequency named for exactly this period; 12 months and a year are one interval *)
FrequencyOf(p) ==
    IF p.n = 0 THEN (IF p.u = Years THEN Once ELSE NoFrequency)
    ELSE IF p = [n |-> 12, u |-> Months] THEN Annual
    ELSE LET S == {f \in Named : PaymentInterval(f) = p}
         IN  IF S = {} THEN OtherFrequency ELSE CHOOSE f \in S : TRUE
=============================================================================
