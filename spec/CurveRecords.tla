---------------------------- MODULE CurveRecords ----------------------------
(* Judges what curves derive from the curve underneath (C43).                   *)
EXTENDS YearTimes, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
SV(v) == <<v[1], <<v[2], v[3], v[4], v[5]>>>>
Sane(v) == v # <<>> /\ v[1] \in {-1, 1}
(* discount at a date: the curve is asked once, for the time of that date, with the same
   permission to extrapolate, and its answer is passed on *)
BadDiscount(r) ==
    Fail("asked-once", Len(r.asked) = 1)
    \cup UNION { Fail("time-asked", Sane(r.asked[k].t) /\ SClose(SV(r.asked[k].t), YearT(r.dc, r.ref, r.d, 0, 0), TimeTol(r.dc)))
                 \cup Fail("extrapolation-asked", r.asked[k].ex = r.ex) : k \in DOMAIN r.asked }
    \cup Fail("answer", r.answer = r.given)
(* forward over a period: asked from d to d moved by the period, everything else passed on *)
BadForward(r) ==
    LET e == AddPeriod(r.d, r.n, r.u) IN
    IF e = Refused THEN Fail("refused", r.answer = "refused" /\ r.asked = <<>>)
    ELSE Fail("forward-dates", Len(r.asked) = 1 /\ \A k \in DOMAIN r.asked : r.asked[k].a = r.d /\ r.asked[k].b = e)
         \cup Fail("forward-terms", \A k \in DOMAIN r.asked :
                 r.asked[k].dc = r.dc /\ r.asked[k].comp = r.comp /\ r.asked[k].f = r.f /\ r.asked[k].ex = r.ex)
         \cup Fail("answer", r.answer = r.given)
(* discounts from zero yields: q = [time t, yield z at t, discount d, times the yield was asked at] *)
ZeroDiscount(t, z) == ContinuousT(-z[1] * t[1], z[2], t[2])
BadZero(r) ==
    UNION { LET x == r.q[k]  t == SV(x.t)  z == SV(x.z)
                w == IF t[2] = Zero THEN One ELSE ZeroDiscount(t, z)
            IN  Fail("discount", Sane(x.d) /\ x.d[1] = 1 /\ FNear(SV(x.d)[2], w))
                \cup Fail("yield-asked", t[2] = Zero \/ x.at = 1)
          : k \in DOMAIN r.q }
Bad(r) == CASE r.k = "discount" -> BadDiscount(r)
            [] r.k = "forward" -> BadForward(r)
            [] r.k = "zero" -> BadZero(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
