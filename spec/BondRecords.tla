----------------------------- MODULE BondRecords ----------------------------
(* Judges recorded bonds: what they are made of and their lives (C29), their     *)
(* prices (C30) and yields (C31).                                                *)
EXTENDS Bonds, FlowJudges, TraceRecords
SetOf(q) == {q[k] : k \in DOMAIN q}
(* ---- the life of a bond ------------------------------------------------------- *)
BadLife(life, steps, days, issue, G(_)) ==
    UNION { LET l == life[k] IN
            Fail("notional", l.owed = Owed(steps, l.d))
            \cup Fail("matured price", l.set > 0 /\ Owed(steps, l.set) = 0 => l.nil = 1)
            \cup Fail("tradeable", (l.tr = 1) <=> Tradeable(steps, l.d))
            \cup Fail("settlement", l.set = Settles(days, issue, G, l.d))
          : k \in DOMAIN life }
FlowIs(f, c) == f.pay = c.pay /\ f.s = c.s /\ f.t = c.t /\ f.rs = c.rs /\ f.rt = c.rt /\ f.ex = c.ex
BadFixed(q, H(_, _)) ==
    LET sch == [d |-> q.s.d, r |-> [j \in DOMAIN q.s.r |-> q.s.r[j] = 1], n |-> q.s.n, u |-> q.s.u, eom |-> q.s.eom = 1, conv |-> q.sconv]
        t == BondTerms(q.face, [k \in DOMAIN q.rates |-> SV(q.rates[k])], q.dc, q.conv, q.pcal, q.fdc, IF q.whole = 1 THEN q.ex ELSE <<>>)
        cs == BondCoupons(t, sch, H)
        n == Len(cs)
        G(s) == H(IF q.pcal = 0 THEN 1 ELSE q.pcal, s)
        steps == FixedSteps(q.face, cs)
        money == FAdd(FMulInt(<<0, 0, 400, 0>>, q.face), <<0, 0, 0, 100>>)
    IN  IF q.built = 0 THEN {"refused"}
        ELSE IF Len(q.flows) # n + 1 THEN {"coupons-then-redemption"}
        ELSE Fail("coupons", \A k \in 1..n : FlowIs(q.flows[k], cs[k]))
             \cup Fail("coupon-amounts", \A k \in 1..n : (cs[k].dc # "isma" /\ Known(cs[k], cs[k].s, cs[k].t)) =>
                                            Sane(q.flows[k].amount) /\ SClose(SV(q.flows[k].amount), Amount(cs[k]), money))
             \cup Fail("redemption-date", q.flows[n + 1].pay = RedeemedOn(cs) /\ q.flows[n + 1].s = 0 /\ q.flows[n + 1].ex = 0)
             \cup Fail("redemption-amount", SClose(SV(q.flows[n + 1].amount), Repaid(q.face, q.red), money))
             \cup Fail("redemptions", q.reds = <<n + 1>>)
             \cup Fail("principal", q.steps = steps)
             \cup Fail("maturity", q.mat = sch.d[Len(sch.d)])
             \cup Fail("terms-kept", q.ok = 1)
             \cup BadLife(q.life, steps, q.days, q.issue, G)
BadZero(q, H(_, _)) ==
    LET G(s) == H(1, s)
        on == Adjust(G, q.m, IF q.conv = 0 THEN Following ELSE q.conv)
        steps == <<<<0, q.face>>, <<on, 0>>>>
        money == FAdd(FMulInt(<<0, 0, 0, 100>>, q.face), <<0, 0, 0, 100>>)
    IN  IF q.built = 0 THEN {"refused"}
        ELSE Fail("redemption-only", Len(q.flows) = 1 /\ q.reds = <<1>> /\ q.flows[1].pay = on /\ q.flows[1].s = 0 /\ q.flows[1].ex = 0)
             \cup Fail("redemption-amount", SClose(SV(q.flows[1].amount), Repaid(q.face, q.red), money))
             \cup Fail("principal", q.steps = steps)
             \cup Fail("maturity", q.mat = q.m)
             \cup Fail("terms-kept", q.ok = 1)
             \cup Fail("months-to-maturity", \A k \in DOMAIN q.life : q.life[k].p = InMonths(q.m - q.life[k].d))
             \cup Fail("discount-price", \A k \in DOMAIN q.life : LET l == q.life[k] IN
                            Sane(l.price) /\ SClose(SV(l.price), AtDiscount(SV(l.y), q.m - l.d), <<0, 0, 0, 200>>))
             \cup BadLife(q.life, steps, q.days, q.issue, G)
BadBond(r) ==
    LET HS == [k \in DOMAIN r.cals |-> SetOf(r.cals[k].hol)]
        H(k, s) == s \in HS[k] \/ (r.cals[k].base = 2 /\ Weekday(s) \in {1, 7})
        G(s) == H(1, s)
    IN UNION { CASE r.q[k].k = "fixed" -> BadFixed(r.q[k], H)
                 [] r.q[k].k = "zero" -> BadZero(r.q[k], H)
                 (* any bond: what is owed follows the steps it was given *)
                 [] r.q[k].k = "steps" -> BadLife(r.q[k].life, r.q[k].steps, r.q[k].days, r.q[k].issue, G)
             : k \in DOMAIN r.q }
(* ---- prices: per 100 of what is owed -------------------------------------------- *)
KnownAccrual(L, d) == KnownAll(L, Together(L, d, FALSE), d)
BondTol(L, owed) == FMulInt(FDivInt(AccTol(L, DOMAIN L), owed), 100)
PriceTol(L, q, owed) == FMulInt(FDivInt(PvTol(L, q), owed), 100)
BadPrice(r) ==
    LET L == Leg(r.flows) IN
    UNION { LET q == r.q[k]
                owed == Owed(r.steps, q.set)
                p == Dirty(r.steps, L, Yield(q), q.set)
            IN  IF ~Tradeable(r.steps, q.set)
                THEN Fail("priced-after-maturity", q.dirty = <<>> /\ q.clean = <<>>)
                     \cup Fail("accrued-after-maturity", Sane(q.acc) /\ SV(q.acc)[2] = Zero)
                ELSE Fail("accrued", ~KnownAccrual(L, q.set) \/ (Sane(q.acc) /\ SClose(SV(q.acc), BondAccrued(r.steps, L, q.set), BondTol(L, owed))))
                     \cup Fail("clean-and-accrued", Sane(q.clean) /\ Sane(q.acc) /\ Sane(q.dirty) =>
                                                     SClose(SAdd(SV(q.clean), SV(q.acc)), SV(q.dirty), <<0, 0, 0, 100>>))
                     \cup (IF ~p.ok THEN {}
                           ELSE Fail("dirty", Sane(q.dirty) /\ SClose(SV(q.dirty), p.sum, PriceTol(L, q, owed))))
          : k \in DOMAIN r.q }
(* ---- yields: of clean prices ------------------------------------------------------- *)
BadBondYield(r) ==
    LET L == Leg(r.flows) IN
    UNION { LET q == r.q[k]
                owed == Owed(r.steps, q.set)
            IN  IF ~Tradeable(r.steps, q.set) THEN Fail("yield-after-maturity", q.x = <<>>)
                ELSE IF ~Sane(q.accrued) THEN Fail("accrued", ~KnownAccrual(L, q.set))
                ELSE BadYieldOf(L, q, SMul(SAdd(SV(q.price), SV(q.accrued)), SRatio(owed, 100)))
          : k \in DOMAIN r.q }
    \cup Fail("dearer-yields-less", \A k \in 2..r.rising : r.q[k].x # <<>> /\ r.q[k - 1].x # <<>> /\ Sane(r.q[k].x) /\ Sane(r.q[k - 1].x) => SLess(SV(r.q[k].x), SAdd(SV(r.q[k - 1].x), <<1, <<0, 0, 3, 0>>>>)))
Bad(r) == CASE r.k = "bonds" -> BadBond(r)
            [] r.k = "prices" -> BadPrice(r)
            [] r.k = "bond-yields" -> BadBondYield(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
