--------------------------- MODULE DayCountRecords --------------------------
(* Judges recorded day counts and year fractions (C22 - C25).                  *)
EXTENDS DayCounts, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
SetOf(q) == {q[k] : k \in DOMAIN q}
HolOf(r, HS, s) == s \in HS \/ (r.base = 2 /\ Weekday(s) \in {1, 7})
(* each counter: <<day count, fraction times its denominator>> *)
Both(x, e) == x = <<e, e>>
BadThirty(r) ==
    UNION { LET q == r.q[k]  s == r.s  t == q.t IN
            Fail("30/360 US", Both(q.us, USBasis(s, t)))
            \cup Fail("30/360 bond basis", Both(q.bb, BondBasis(s, t)))
            \cup Fail("30E/360", Both(q.eu, EuroBasis(s, t)))
            \cup Fail("30/360 Italian", Both(q.it, Italian(s, t)))
            \cup Fail("30E/360 ISDA", Both(q.ge, German(s, t, q.term)))
            \cup Fail("30/360 NASD", Both(q.na, Nasd(s, t)))
            \cup Fail("30/365", Both(q.tf, Plain(s, t)))
          : k \in DOMAIN r.q }
BadActual(r) ==
    UNION { LET q == r.q[k]  s == r.s  t == q.t IN
            Fail("actual/360", Both(q.a0, t - s) /\ Both(q.a0i, t - s + 1))
            \cup Fail("actual/366", Both(q.a6, t - s) /\ Both(q.a6i, t - s + 1))
            \cup Fail("1/1", Both(q.one, OneOne(s, t)))
            \cup Fail("simple", q.si = <<BondBasis(s, t), Simple360(s, t)>>)
          : k \in DOMAIN r.q }
BadCalendar(r) ==
    UNION { LET q == r.q[k]  s == r.s  t == q.t IN
            Fail("actual/actual ISDA", q.isda = <<t - s, Isda(s, t)>>)
            \cup Fail("actual/actual AFB", q.afb = <<t - s, Afb(s, t)>>)
          : k \in DOMAIN r.q }
(* every added part may lose one unit of the sixth digit *)
Near(x, e, k) == IF e = NoFraction THEN x = NoFraction ELSE x # NoFraction /\ x - e \in -(k + 5)..(k + 5)
BadOldIsma(r) ==
    UNION { LET q == r.q[k] IN
            Fail("ISMA with reference period", Near(q.v, OldIsma(q.s, q.t, q.rs, q.re), 60))
            \cup Fail("day count", q.n = q.t - q.s)
          : k \in DOMAIN r.q }
BadIsma(r) ==
    LET HS == SetOf(r.hol)
        H(x) == HolOf(r, HS, x)
    IN UNION { LET w == r.q[j]
                   sc == [d |-> w.s.d, r |-> [k \in DOMAIN w.s.r |-> w.s.r[k] = 1]]
                   L == NotionalDates(H, sc, [n |-> w.s.n, u |-> w.s.u, conv |-> w.conv, eom |-> w.s.eom = 1])
               IN UNION { LET q == w.q[k] IN
                          Fail("ISMA with schedule", Near(q.v, Isma(L, q.s, q.t), Len(L)))
                          \cup Fail("day count", q.n = q.t - q.s)
                        : k \in DOMAIN w.q }
             : j \in DOMAIN r.q }
Bad(r) == CASE r.k = "thirty" -> BadThirty(r)
            [] r.k = "actual" -> BadActual(r)
            [] r.k = "actact" -> BadCalendar(r)
            [] r.k = "oldisma" -> BadOldIsma(r)
            [] r.k = "isma" -> BadIsma(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
