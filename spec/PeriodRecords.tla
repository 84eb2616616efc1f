---------------------------- MODULE PeriodRecords ---------------------------
(* Judges recorded period operations (C12 - C14).                             *)
EXTENDS Periods, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
P(x) == [n |-> x[1], u |-> x[2]]
(* an observed result: <<>> when refused, else <<n, u>> *)
Is(x, amount) == IF x = <<>> THEN amount = NoPeriod ELSE amount # NoPeriod /\ Denotes(P(x)) = amount
KnownUnit(x) == x = <<>> \/ x[2] \in {Days, Weeks, Months, Years}
(* conversions: <<>> when refused, else <<k * value rounded, 1 if exact>> *)
ConvIs(x, p, fam, k) == IF Fam(p) \in {fam, "zero"} THEN x = <<k, 1>> ELSE x = <<>>

BadPairs(r) ==
    LET p == P(r.p) IN
    UNION { LET q == P(r.q[k].q)  x == r.q[k]
                c == Compare(p, q)
            IN Fail("add", Is(x.add, Sum(p, q))) \cup Fail("subtract", Is(x.sub, Difference(p, q)))
               \cup Fail("unit", KnownUnit(x.add) /\ KnownUnit(x.sub))
          : k \in DOMAIN r.q }
BadOrder(r) ==
    LET p == P(r.p) IN
    UNION { LET q == P(r.q[k].q)  x == r.q[k]
                c == Compare(p, q)
            IN Fail("compare", c = 2 \/ x.cmp = c)
               \cup Fail("antisymmetric", x.rev = -x.cmp /\ x.cmp \in -1..1)
               \cup Fail("equality", (x.eq = 1) = (x.cmp = 0) /\ (x.qe = x.eq))
               \cup Fail("relations", (x.lt = 1) = (x.cmp = -1) /\ (x.gt = 1) = (x.cmp = 1)
                                      /\ (x.le = 1) = (x.cmp <= 0) /\ (x.ge = 1) = (x.cmp >= 0))
               \cup Fail("hash", x.eq = 1 => x.hash = 1)
               \cup Fail("dates", \A j \in DOMAIN x.dates :
                       LET a == x.dates[j][2]  b == x.dates[j][3]
                       IN  c = 2 \/ a = -1 \/ b = -1 \/ ((x.cmp <= 0 => a <= b) /\ (x.cmp >= 0 => a >= b)))
          : k \in DOMAIN r.q }
BadOne(r) ==
    LET p == P(r.p) IN
    UNION { LET x == r.q[k] IN
            Fail("multiply", Is(x.mul, Times(p, x.k)) /\ x.mul[2] = p.u)
            \cup Fail("divide", Is(x.div, Quotient(p, x.k)) /\ Is(x.dva, Quotient(p, x.k)))
            \cup Fail("divide-unit", x.div # <<>> /\ Divides(x.k, p.n) => P(x.div) = [n |-> Share(p.n, x.k), u |-> p.u] /\ x.dva = x.div)
          : k \in DOMAIN r.q }
    \cup Fail("negate", Is(r.neg, Denotes(Negated(p))) /\ r.neg[2] = p.u)
    \cup Fail("normalise", P(r.norm) = Normal(p) /\ P(r.normd) = Normal(p))
    \cup Fail("years", ConvIs(r.years, p, "months", Base(p)))
    \cup Fail("months", ConvIs(r.months, p, "months", Base(p)))
    \cup Fail("weeks", ConvIs(r.weeks, p, "days", Base(p)))
    \cup Fail("days", ConvIs(r.days, p, "days", Base(p)))
    \cup Fail("limits", {r.lim[1], r.lim[2]} = {MinDays(p), MaxDays(p)})
(* an in-place history: each step starts from the observed state before it *)
OpAmount(p, o) == CASE o[1] = 1 -> Sum(p, P(<<o[2], o[3]>>))
                    [] o[1] = 2 -> Difference(p, P(<<o[2], o[3]>>))
                    [] o[1] = 3 -> Quotient(p, o[2])
                    [] o[1] = 4 -> Denotes(p)
                    [] o[1] = 5 -> Times(p, o[2])
                    [] o[1] = 6 -> Denotes(Negated(p))
RECURSIVE BadSteps(_, _, _)
BadSteps(h, p, k) ==
    IF k > Len(h) THEN {}
    ELSE LET a == OpAmount(p, h[k].o)
         IN  Fail("history", IF a = NoPeriod THEN h[k].ok = 0 /\ Denotes(P(h[k].s)) = Denotes(p)
                             ELSE h[k].ok = 1 /\ Denotes(P(h[k].s)) = a)
             \cup BadSteps(h, P(h[k].s), k + 1)
BadFreq(r) ==
    UNION { LET x == r.q[k] IN Fail("frequency-of-period", x[3] = FrequencyOf(P(<<x[1], x[2]>>))) : k \in DOMAIN r.q }
BadCodes(r) ==
    UNION { LET x == r.q[k] IN
            Fail("code", IF x.c \in Frequencies THEN x.f = x.c /\ x.r = x.c /\ x.name = 1 ELSE x.f = -2)
            \cup (IF x.c \in Frequencies
                  THEN IF x.c = OtherFrequency THEN Fail("refuses-other", x.p = <<>>)
                       ELSE Fail("payment-interval", x.p # <<>> /\ Denotes(P(x.p)) = Denotes(PaymentInterval(x.c)))
                            \cup Fail("round-trip", x.b = x.c)
                  ELSE {})
          : k \in DOMAIN r.q }
Bad(r) == CASE r.k = "pairs" -> BadPairs(r)
            [] r.k = "order" -> BadOrder(r)
            [] r.k = "one" -> BadOne(r)
            [] r.k = "history" -> BadSteps(r.h, P(r.p), 1)
            [] r.k = "freq" -> BadFreq(r)
            [] r.k = "codes" -> BadCodes(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
