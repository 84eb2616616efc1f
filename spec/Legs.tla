-------------------------------- MODULE Legs --------------------------------
(* Fixed-rate legs.  The state of a leg under construction is the record of    *)
(* its terms; setters replace terms, Build turns terms and a schedule into      *)
(* coupons.                                                                      *)
(*   terms  [notionals, rates, fdc, ldc, pcal, padj, lag, ex]                    *)
(*   a rate is a record [dc, comp, f, x]; fdc, ldc = "" and pcal, padj = 0 mean  *)
(*   "not given"; ex = <<>> or <<n, u, calendar, convention, eom>>               *)
(*   schedule  [d, r, n, u, eom, conv]: dates, regularity flags, tenor, options  *)
(*   coupon  [pay, nominal, s, t, rs, rt, ex, rate]                              *)
(* Calendar 1 is that of the schedule; H(k, s) says whether s is a holiday of k. *)
EXTENDS BusinessDays
NoTerms == [notionals |-> <<>>, rates |-> <<>>, fdc |-> "", ldc |-> "", pcal |-> 0, padj |-> 0, lag |-> 0, ex |-> <<>>]
Slot(op) == CASE op \in {1, 2} -> "notionals"
              [] op \in {3, 4, 5, 6} -> "rates"
              [] op = 7 -> "fdc"
              [] op = 8 -> "ldc"
              [] op = 9 -> "pcal"
              [] op = 10 -> "padj"
              [] op = 11 -> "lag"
              [] op = 12 -> "ex"
Set(t, op, v) == [t EXCEPT ![Slot(op)] = v]

AtOrLast(q, k) == IF k <= Len(q) THEN q[k] ELSE q[Len(q)]
PayDate(t, H(_, _), end) ==
    LET cal == IF t.pcal = 0 THEN 1 ELSE t.pcal
        G(s) == H(cal, s)
    IN  Advance(G, end, t.lag, Days, IF t.padj = 0 THEN Following ELSE t.padj, FALSE)
ExDate(t, H(_, _), pay) ==
    IF t.ex = <<>> THEN 0
    ELSE LET G(s) == H(t.ex[3], s)
         IN  Advance(G, pay, -t.ex[1], t.ex[2], t.ex[4], t.ex[5] = 1)
(* the full-tenor reference period of the j-th interval *)
RefPeriod(sch, H(_, _), j) ==
    LET G(s) == H(1, s)
        n == Len(sch.d) - 1
        s == sch.d[j]
        t == sch.d[j + 1]
    IN  IF sch.r[j] THEN <<s, t>>
        ELSE IF j = 1 THEN <<Advance(G, t, -sch.n, sch.u, sch.conv, sch.eom), t>>
        ELSE IF j = n THEN <<s, Advance(G, s, sch.n, sch.u, sch.conv, sch.eom)>>
        ELSE <<s, t>>
RateOf(t, sch, j) ==
    LET x == AtOrLast(t.rates, j)
        n == Len(sch.d) - 1
        dc == IF j = 1 /\ t.fdc # "" THEN t.fdc
              ELSE IF j = n /\ j > 1 /\ t.ldc # "" THEN t.ldc ELSE x.dc
    IN  [x EXCEPT !.dc = dc]
CouponAt(t, sch, H(_, _), j) ==
    LET pay == PayDate(t, H, sch.d[j + 1])
        ref == RefPeriod(sch, H, j)
    IN  [pay |-> pay, nominal |-> AtOrLast(t.notionals, j), s |-> sch.d[j], t |-> sch.d[j + 1],
         rs |-> ref[1], rt |-> ref[2], ex |-> IF pay = Refused THEN Refused ELSE ExDate(t, H, pay), rate |-> RateOf(t, sch, j)]
Complete(t) == t.notionals # <<>> /\ t.rates # <<>>
Build(t, sch, H(_, _)) == [j \in 1..(Len(sch.d) - 1) |-> CouponAt(t, sch, H, j)]
=============================================================================
