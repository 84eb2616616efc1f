----------------------------- MODULE PeriodModel ----------------------------
(* A period accumulator updated in place, and what its representation denotes. *)
(* The representation-level operations keep units when they can; the ghost     *)
(* amount is what the user means.  Also checks, over all pairs of small        *)
(* periods, that the comparison is a sound order in terms of dates.            *)
EXTENDS Periods
CONSTANTS K, N, Starts      \* |lengths| <= K in comparisons; |accumulator| <= N
VARIABLES acc, amt, ok
Units == {Days, Weeks, Months, Years}
Small == [n : -2..3, u : Units]

AddRep(p, q) == IF p.n = 0 THEN q
                ELSE IF p.u = q.u THEN [p EXCEPT !.n = @ + q.n]
                ELSE IF q.n = 0 THEN p
                ELSE IF p.u = Years THEN [n |-> 12 * p.n + q.n, u |-> Months]
                ELSE IF p.u = Months THEN [p EXCEPT !.n = @ + 12 * q.n]
                ELSE IF p.u = Weeks THEN [n |-> 7 * p.n + q.n, u |-> Days]
                ELSE [p EXCEPT !.n = @ + 7 * q.n]
Trunc(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
DivRep(p, k) == IF Abs(p.n) % Abs(k) = 0 THEN [p EXCEPT !.n = Trunc(@, k)]
                ELSE [n |-> Trunc(Base(p), k), u |-> IF p.u = Years THEN Months ELSE IF p.u = Weeks THEN Days ELSE p.u]

Init == acc \in [n : {0, 1, 5}, u : Units] /\ amt = Denotes(acc) /\ ok = TRUE
Put(p, a) == acc' = p /\ amt' = a /\ ok' = TRUE
Refuse == UNCHANGED <<acc, amt>> /\ ok' = FALSE
Add(q) == IF Mix(acc, q) THEN Refuse ELSE Put(AddRep(acc, q), Amount(Common(acc, q), amt[2] + Base(q)))
Sub(q) == Add(Negated(q))
Mul(k) == Put([acc EXCEPT !.n = k * @], Amount(Fam(acc), k * amt[2]))
Div(k) == IF Quotient(acc, k) = NoPeriod THEN Refuse ELSE Put(DivRep(acc, k), Quotient(acc, k))
Norm == Put(Normal(acc), amt)
Next == \/ \E q \in Small : Add(q) \/ Sub(q)
        \/ \E k \in {-2, 0, 3} : Mul(k)
        \/ \E k \in {-3, 0, 2, 5, 12} : Div(k)
        \/ Norm
Bound == Abs(acc.n) <= N
Spec == Init /\ [][Next]_<<acc, amt, ok>>
KeepsItsAmount == Denotes(acc) = amt
NormalStays == Normal(Normal(acc)) = Normal(acc) /\ Denotes(Normal(acc)) = Denotes(acc)

(* one-time facts about the comparison, evaluated in the initial states *)
All == [n : -K..K, u : Units]
Antisymmetric == \A p, q \in All : LET a == Compare(p, q) b == Compare(q, p)
                                   IN  IF a = 2 THEN b = 2 ELSE a = -b
EqualMeansSame == \A p, q \in All : Compare(p, q) = 0 <=> Denotes(p) = Denotes(q)
NormalCanonical == \A p, q \in All : Compare(p, q) = 0 /\ p.n # 0 => Normal(p) = Normal(q)
SoundForDates == \A p, q \in All : Compare(p, q) \in {-1, 0} =>
                    \A s \in Starts : LET a == AddPeriod(s, p.n, p.u)
                                          b == AddPeriod(s, q.n, q.u)
                                      IN  a = Refused \/ b = Refused \/ a <= b
RoundTrip == \A f \in Frequencies \ {OtherFrequency} : FrequencyOf(PaymentInterval(f)) = f
OneInterval == \A f \in Named : LET p == PaymentInterval(f)
                                IN  IF p.u \in {Months, Years} THEN f * Base(p) = 12
                                    ELSE IF p.u = Weeks THEN f * p.n = 52 ELSE f = 365
Facts == (acc = [n |-> 0, u |-> Days] /\ ok) =>
            Antisymmetric /\ EqualMeansSame /\ NormalCanonical /\ SoundForDates /\ RoundTrip /\ OneInterval
=============================================================================
