----------------------------- MODULE LegRecords -----------------------------
(* Judges legs built by recorded sequences of setter calls (C26).               *)
EXTENDS Legs, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
SetOf(q) == {q[k] : k \in DOMAIN q}
RECURSIVE AfterOps(_, _, _)
AfterOps(t, ops, k) == IF k > Len(ops) THEN t ELSE AfterOps(Set(t, ops[k].o, ops[k].v), ops, k + 1)
BadLeg(r) ==
    LET HS == [k \in DOMAIN r.cals |-> SetOf(r.cals[k].hol)]
        H(k, s) == s \in HS[k] \/ (r.cals[k].base = 2 /\ Weekday(s) \in {1, 7})
    IN UNION { LET q == r.q[k]
                   t == AfterOps([NoTerms EXCEPT !.notionals = q.init.n, !.rates = q.init.r], q.ops, 1)
                   sch == [d |-> q.s.d, r |-> [j \in DOMAIN q.s.r |-> q.s.r[j] = 1], n |-> q.s.n, u |-> q.s.u,
                           eom |-> q.s.eom = 1, conv |-> q.conv]
                   e == Build(t, sch, H)
                   Field(f) == \A j \in DOMAIN e : q.leg[j][f] = e[j][f]
               IN  IF ~Complete(t) THEN Fail("built-incomplete", q.built = 0)
                   ELSE IF q.built = 0 THEN {"refused"}
                   ELSE IF Len(q.leg) # Len(e) THEN {"one-coupon-per-interval"}
                   ELSE UNION {Fail(f, Field(f)) : f \in {"pay", "nominal", "s", "t", "rs", "rt", "ex", "rate"}}
                        \cup Fail("accessors", q.ok = 1)
             : k \in DOMAIN r.q }
Bad(r) == CASE r.k = "leg" -> BadLeg(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
