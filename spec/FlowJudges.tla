----------------------------- MODULE FlowJudges -----------------------------
(* What recorded queries about legs (C28), present values (C30) and yields (C31) *)
(* must satisfy.                                                                 *)
EXTENDS CashFlows, TLC
Fail(name, ok) == IF ok THEN {} ELSE {name}
Sane(v) == v # <<>> /\ v[1] \in {-1, 1}
SV(v) == <<v[1], <<v[2], v[3], v[4], v[5]>>>>
Coupon(x) == [x EXCEPT !.x = SV(x.x)]
Flow(x) == IF x.kind = 0 THEN FlowOf(Coupon(x.c), SV(x.amount)) ELSE Payment(x.date, SV(x.amount))
Leg(fs) == [k \in DOMAIN fs |-> Flow(fs[k])]
B(x) == IF x THEN 1 ELSE 0
RECURSIVE Nominals(_, _)
Nominals(L, K) == IF K = {} THEN 1 ELSE LET k == CHOOSE k \in K : TRUE IN (IF IsCoupon(L[k]) THEN L[k].c.nominal ELSE 0) + Nominals(L, K \ {k})
AccTol(L, K) == FMulInt(<<0, 0, 400, 0>>, Nominals(L, K))
(* is the accrual of every flow in K defined *)
KnownAll(L, K, d) == \A k \in K : IsCoupon(L[k]) /\ Accruing(L[k].c, d) =>
                        LET p == AccrualSpan(L[k].c, d) IN Known(L[k].c, p[2], p[3])
BadQueries(r) ==
    LET L == Leg(r.flows) IN
    Fail("maturity", r.mat = LegMaturity(L))
    \cup Fail("accessors", r.ok = 1)
    \cup UNION { LET q == r.q[k]
                     d == q.d
                     Acc(incl, v) == LET K == Together(L, d, incl)
                                     IN  ~KnownAll(L, K, d) \/ (Sane(v) /\ SClose(SV(v), LegAccrued(L, d, incl), AccTol(L, K)))
                     PerOk(incl, v) == LET n == NextFlow(L, d, incl)
                                     IN  n = 0 \/ ~KnownAll(L, {n}, d) \/ (Sane(v) /\ SClose(SV(v), LegAccruedPeriod(L, d, incl), <<0, 0, 400, 0>>))
                 IN  Fail("occurred", q.occ = [j \in DOMAIN L |-> <<B(Occurred(L[j], d, FALSE)), B(Occurred(L[j], d, TRUE))>>])
                     \cup Fail("ex-coupon", q.ex = [j \in DOMAIN L |-> B(TradesEx(L[j], d))])
                     \cup Fail("ex-coupon-shared", q.exs = [j \in DOMAIN L |-> B(TradesEx(L[j], d))])
                     \cup Fail("next", q.nx = <<NextFlow(L, d, FALSE), NextFlow(L, d, TRUE)>>)
                     \cup Fail("accrued-amount", Acc(FALSE, q.acc[1]) /\ Acc(TRUE, q.acc[2]))
                     \cup (IF r.coupons = 0 THEN {}
                           ELSE Fail("accrued-amount-of-coupons", q.cacc = q.acc)
                                \cup Fail("accrued-days", q.days = <<LegAccruedDays(L, d, FALSE), LegAccruedDays(L, d, TRUE)>>)
                                \cup Fail("accrued-period", PerOk(FALSE, q.per[1]) /\ PerOk(TRUE, q.per[2])))
               : k \in DOMAIN r.q }

(* ---- present values --------------------------------------------------------------- *)
Yield(q) == [dc |-> q.dc, comp |-> q.comp, f |-> q.f, x |-> SV(q.x)]
Loose(q) == q.dc = "isma"
RECURSIVE Largest(_, _, _)
Largest(L, k, m) == IF k > Len(L) THEN m ELSE Largest(L, k + 1, IF FLess(m, L[k].amount[2]) THEN L[k].amount[2] ELSE m)
(* 10^-8 of the flows in play, 3*10^-6 where times are six-digit numbers *)
PvTol(L, q) == FMulInt(FMul(FAdd(FMulInt(Largest(L, 1, One), Len(L)), One), Tol8), IF Loose(q) THEN 2000 ELSE 4)
NpvDate(q) == IF q.npvd = 0 THEN q.set ELSE q.npvd
(* v is a modified duration: times the value it is minus the slope of the value *)
SlopeAgrees(L, y, q, p, v) ==
    IF y.comp \in {"compounded", "continuous"}
    THEN Sane(v) /\ (\/ ~SLess(<<1, <<0, 1, 0, 0>>>>, <<1, p.sum[2]>>)
                     \/ SClose(SMul(SV(v), p.sum), MinusSlope(p, y), FMulInt(PvTol(L, q), 60)))
    ELSE LET e == Dur(L, y, q.set, NpvDate(q), q.incl = 1)
         IN  ~e.ok \/ (Sane(v) /\ (\/ ~SLess(<<1, <<0, 1, 0, 0>>>>, <<1, e.sum[2]>>)
                                   \/ SClose(SMul(SV(v), e.sum), e.slope, FMulInt(PvTol(L, q), 60))))
BadPv(r) ==
    LET L == Leg(r.flows) IN
    UNION { LET q == r.q[k]
                y == Yield(q)
                p == Pv(L, y, q.set, NpvDate(q), q.incl = 1)
            IN  IF ~p.ok THEN {}
                ELSE Fail("present-value", Sane(q.v) /\ SClose(SV(q.v), p.sum, PvTol(L, q)))
                     \cup Fail("price per 100", q.per100 = 1)
                     \cup Fail("modified-duration", SlopeAgrees(L, y, q, p, q.md))
          : k \in DOMAIN r.q }

(* ---- yields ------------------------------------------------------------------------ *)
Acc(q) == CASE q.acc = 6 -> <<0, 0, 100, 0>> [] q.acc = 8 -> <<0, 0, 1, 0>> [] q.acc = 10 -> <<0, 0, 0, 100>>
Magnitude(x) == x[2]
Pays(L, q, sg) == \E k \in DOMAIN L : /\ ~Occurred(L[k], q.set, q.incl = 1) /\ ~TradesEx(L[k], q.set)
                                        /\ L[k].amount[2] # Zero /\ L[k].amount[1] = sg
(* With simple interest over T years nothing has a price at or below -1/T. From a guess g the search   *)
(* tries 0.32 g, -0.76 g, -3.6 g...: it can only be asked to find a yield it meets before that wall.   *)
(* The guesses recorded are at most 0.1.                                                               *)
Walled(L, q) == q.comp \in {"simple", "compounded-then-simple"}
Span(L, q) == LET K == {k \in DOMAIN L : ~Occurred(L[k], q.set, q.incl = 1)}
                  from == IF NpvDate(q) < q.set THEN NpvDate(q) ELSE q.set
              IN  IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : \A j \in K : L[j].date <= L[k].date IN L[k].date - from
InReach(L, q) == \/ ~Walled(L, q)
                 \/ ~SLess(SV(q.y0), <<1, <<0, 330, 0, 0>>>>)
                 \/ ~SLess(SV(q.y0), <<-1, <<0, 750, 0, 0>>>>) /\ Span(L, q) < 4700
                 \/ Span(L, q) < 980
(* a yield q.x found for flows L worth worth at settlement *)
BadYieldOf(L, q, worth) ==
    LET y == Yield(q)
        p == Pv(L, y, q.set, NpvDate(q), q.incl = 1)
        found == Sane(q.x)
        hopeless == worth[2] # Zero /\ ~Pays(L, q, worth[1])
    IN  (* nothing of the sign of the price is still to be paid *)
        IF hopeless THEN Fail("impossible-price-accepted", q.x = <<>>)
        ELSE IF q.x = <<>> THEN Fail("known-yield-refused", q.known = 0 \/ ~InReach(L, q))
        ELSE IF q.x[1] = 8 THEN {} (* beyond -50 or 300 per cent, where nothing is judged *)
        ELSE IF ~found THEN {"not-a-yield"}
        ELSE IF ~p.ok THEN {}
        ELSE Fail("reprices", SClose(p.sum, worth, FAdd(PvTol(L, q), FMulInt(FMul(Acc(q), p.dur[2]), 3))))
             \cup Fail("known-yield", q.known = 0 \/ Loose(q) \/ FLess(FMulInt(p.dur[2], 100), p.sum[2])
                                      \/ SClose(SV(q.x), SV(q.y0), FAdd(<<0, 0, 0, 200>>, FMulInt(Acc(q), 2))))
             \cup Fail("at", q.at = <<>> \/ (Sane(q.at) /\ SClose(SV(q.at), SSub(worth, p.sum), PvTol(L, q))))
             (* the slope it reports is the modified duration: relative to the value *)
             \cup Fail("derivative", q.der = <<>> \/ SlopeAgrees(L, y, q, p, q.der))
BadYield(r) ==
    LET L == Leg(r.flows) IN
    UNION {BadYieldOf(L, r.q[k], SV(r.q[k].price)) : k \in DOMAIN r.q}
    (* a search is taken up exactly when something of the sign of the price is still to be paid             *)
    \cup UNION {LET q == r.q[k]
                    worth == SV(q.price) IN
                Fail("search-taken-up", \/ worth[2] = Zero
                                        \/ IF Pays(L, q, worth[1]) THEN q.taken = 1
                                           ELSE q.taken = 0 \/ \E j \in DOMAIN L : L[j].amount[2] = Zero)
                : k \in DOMAIN r.q}
    (* dearer means a lower yield: for positive flows, entries 1..r.rising are at rising prices, otherwise alike *)
    \cup Fail("dearer-yields-less", \A k \in 2..r.rising : r.q[k].x # <<>> /\ r.q[k - 1].x # <<>> /\ Sane(r.q[k].x) /\ Sane(r.q[k - 1].x) => SLess(SV(r.q[k].x), SAdd(SV(r.q[k - 1].x), <<1, <<0, 0, 3, 0>>>>)))

=============================================================================
