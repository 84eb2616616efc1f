------------------------------ MODULE LegModel ------------------------------
(* A leg built coupon by coupon over small schedules, patterns of holidays and  *)
(* terms, and what a user may rely on about it.                                 *)
EXTENDS Legs, TLC
CONSTANTS Few
Base == 43829                                  \* 30 Dec 2019
Pool == {43829, 43861, 43889, 43890, 43921, 43951}          \* 30 Dec, 31 Jan, 28 Feb, 29 Feb, 31 Mar, 30 Apr
Sorted(S) == LET RECURSIVE F(_)
                 F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m})
             IN  F(S)
Patterns == IF Few THEN {{}, {43890, 43891}, {43921, 43922}} ELSE SUBSET {43890, 43921, 43951}
HolidaySets == {[k \in 1..3 |-> IF k = 1 THEN p ELSE IF k = 2 THEN q ELSE {}] : p \in Patterns, q \in Patterns}
VARIABLES sch, terms, hol, leg
vars == <<sch, terms, hol, leg>>
Flags(n) == {r \in [1..n -> BOOLEAN] : \A j \in 1..n : (j > 1 /\ j < n) => r[j]}
Schedules == UNION {{[d |-> Sorted(S), r |-> r, n |-> 1, u |-> Months, eom |-> e, conv |-> c]
                     : r \in Flags(Cardinality(S) - 1), e \in BOOLEAN, c \in (IF Few THEN {2} ELSE {1, 3, 5})}
                    : S \in {S \in SUBSET Pool : Cardinality(S) \in 2..4}}
R(k) == [dc |-> "dc", comp |-> "simple", f |-> 1, x |-> k]
Terms == {[NoTerms EXCEPT !.notionals = SubSeq(<<100, 80, 60>>, 1, m), !.rates = [k \in 1..m |-> R(k)], !.pcal = p, !.lag = l, !.padj = a, !.ex = x]
          : m \in {1, 3}, p \in {0, 2}, l \in {0, 2}, a \in {0, 2, 3}, x \in {<<>>, <<3, Days, 3, 3, 0>>, <<1, Weeks, 2, 3, 0>>}}
H(k, s) == s \in hol[k]
Init == sch \in Schedules /\ hol \in HolidaySets /\ terms \in Terms /\ leg = <<>>
Next == /\ Len(leg) < Len(sch.d) - 1
        /\ leg' = Append(leg, CouponAt(terms, sch, H, Len(leg) + 1))
        /\ UNCHANGED <<sch, terms, hol>>
Spec == Init /\ [][Next]_vars
Done == Len(leg) = Len(sch.d) - 1
AsBuilt == Done => leg = Build(terms, sch, H)
Tiled == \A k \in DOMAIN leg : leg[k].s < leg[k].t /\ (k > 1 => leg[k].s = leg[k - 1].t)
Paid == \A k \in DOMAIN leg : LET c == leg[k] IN
          /\ (terms.lag > 0 => c.pay > c.t /\ ~H(IF terms.pcal = 0 THEN 1 ELSE terms.pcal, c.pay))
          /\ (terms.lag = 0 /\ terms.padj \in {0, 1} => c.pay >= c.t)
          /\ (terms.ex # <<>> => c.ex < c.pay)
InOrder == \A j, k \in DOMAIN leg : j < k => leg[j].pay <= leg[k].pay
Regular == \A k \in DOMAIN leg : LET c == leg[k] IN
             /\ (sch.r[k] => c.rs = c.s /\ c.rt = c.t)
             /\ (~sch.r[k] => IF k = 1 THEN c.rt = c.t ELSE c.rs = c.s)
             /\ c.rs < c.rt
             /\ (~sch.r[k] => c.rt - c.rs \in 27..33)
Repeat == \A k \in DOMAIN leg : leg[k].nominal = (IF Len(terms.notionals) = 1 THEN 100 ELSE <<100, 80, 60>>[k])
=============================================================================
