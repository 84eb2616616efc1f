---------------------------- MODULE RateRecords -----------------------------
(* Judges recorded interest-rate computations (C32).  Recorded numbers are     *)
(* <<sign, limbs...>>, <<>> when the code refused; Bad numbers have sign 9.     *)
EXTENDS YearTimes, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
Gone(v) == v = <<>>
Mag(v) == <<v[2], v[3], v[4], v[5]>>
Sane(v) == v # <<>> /\ v[1] \in {-1, 1}
(* recorded v is the positive number x *)
Is(v, x) == Sane(v) /\ v[1] = 1 /\ FNear(Mag(v), x)
(* recorded rate v reproduces the factor g over n/d *)
UsesSimple(comp, f, n, d) == \/ comp = "simple"
                             \/ comp = "simple-then-compounded" /\ ~Later(f, n, d)
                             \/ comp = "compounded-then-simple" /\ Later(f, n, d)
InReach(comp, f, v, n, d) ==
    IF UsesSimple(comp, f, n, d) THEN Mag(v)[1] < 1000 /\ (v[1] = -1 => FLess(Scaled(Mag(v), n, d), One))
    ELSE IF comp = "continuous" THEN FLess(Scaled(Mag(v), n, d), <<9, 0, 0, 0>>)
    ELSE FLess(FDivInt(Mag(v), f), IF v[1] = 1 THEN <<5, 0, 0, 0>> ELSE <<0, 9500, 0, 0>>) /\ FLess(Scaled(Mag(v), n, d), <<25, 0, 0, 0>>)
Reproduces(comp, f, v, n, d, g) == Sane(v) /\ InReach(comp, f, v, n, d) /\ FNear(Growth(comp, f, v[1], Mag(v), n, d), g)
Unchanged(v) == Sane(v) /\ FNearAbs(Mag(v), Zero, <<0, 0, 0, 10>>)
(* one rate, asked for several times *)
BadTimes(r) ==
    IF Gone(r.rate) THEN Fail("refused-construction", ~Allowed(r.comp, r.f))
    ELSE Fail("construction", Allowed(r.comp, r.f))
    \cup Fail("accessors", r.rate = r.given /\ r.freq = IF Periodic(r.comp) THEN r.f ELSE -1)
    \cup (IF ~Allowed(r.comp, r.f) THEN {} ELSE
    UNION { LET q == r.q[k]
                ok == q.n >= 0
                g == Growth(r.comp, r.f, r.rate[1], Mag(r.rate), q.n, q.d)
            IN  IF ~ok THEN Fail("negative-time", Gone(q.cf) /\ Gone(q.df) /\ Gone(q.eq))
                ELSE Fail("compound-factor", Is(q.cf, g))
                     \cup Fail("discount-factor", Sane(q.df) /\ q.df[1] = 1 /\ FNear(FMul(Mag(q.df), g), One))
                     \cup (IF ~Allowed(q.comp, q.f) THEN Fail("equivalent-refused", Gone(q.eq))
                           ELSE IF q.n = 0 THEN Fail("equivalent-at-zero", Unchanged(q.eq))
                           ELSE Fail("equivalent-rate", Reproduces(q.comp, q.f, q.eq, q.n, q.d, g))
                                \cup Fail("equivalent-factor", Is(q.eqcf, g)))
          : k \in DOMAIN r.q })
(* rates implied by given factors *)
BadImplied(r) ==
    UNION { LET q == r.q[k]
                c == <<q.c[2], q.c[3], q.c[4], q.c[5]>>
                isOne == q.c[1] = 1 /\ c = One
                pos == q.c[1] = 1 /\ c # Zero
            IN  IF ~pos THEN Fail("non-positive-factor", Gone(q.r))
                ELSE IF ~Allowed(q.comp, q.f) THEN Fail("implied-refused", Gone(q.r))
                ELSE IF q.n < 0 THEN Fail("negative-time", Gone(q.r))
                ELSE IF isOne THEN Fail("implied-by-one", Unchanged(q.r))
                ELSE IF q.n = 0 THEN Fail("no-time", Gone(q.r))
                ELSE Fail("implied-rate", Reproduces(q.comp, q.f, q.r, q.n, q.d, c))
                     \cup Fail("implied-accessors", q.rf = IF Periodic(q.comp) THEN q.f ELSE -1)
          : k \in DOMAIN r.q }
(* between dates *)
BadDates(r) ==
    UNION { LET q == r.q[k]
                a == YearPair(r.dc, q.s, q.t)
                b == YearPair(q.dc, q.s, q.t)
                g == Growth(r.comp, r.f, r.rate[1], Mag(r.rate), a[1], a[2])
            IN  IF q.s > q.t THEN Fail("reversed-dates", Gone(q.cf) /\ Gone(q.df) /\ Gone(q.eq) /\ Gone(q.im))
                ELSE Fail("factor-between-dates", Is(q.cf, g))
                     \cup Fail("discount-between-dates", Sane(q.df) /\ FNear(FMul(Mag(q.df), g), One))
                     \cup (IF b[1] = 0 \/ a[1] = 0 THEN {}
                           ELSE Fail("equivalent-between-dates", Reproduces(q.comp, q.f, q.eq, b[1], b[2], g))
                                \cup Fail("implied-between-dates", Reproduces(q.comp, q.f, q.im, b[1], b[2], g)))
          : k \in DOMAIN r.q }
(* over reference periods: some counters measure by them, and refuse without *)
Measured(dc, r) == dc # "isma" \/ OldIsma(r.s, r.t, r.rs, r.rt) # NoFraction
FarFromZero(T) == FLess(<<0, 400, 0, 0>>, T) /\ FLess(T, <<4, 0, 0, 0>>)
About(v, g) == Sane(v) /\ v[1] = 1 /\ FNearAbs(Mag(v), g, <<0, 0, 3000, 0>>)
AboutFactor(comp, f, v, T, g) == Sane(v) /\ (v[1] = 1 \/ FLess(Mag(v), <<0, 1, 0, 0>>)) /\ FLess(Mag(v), <<8, 0, 0, 0>>) /\
                                FNearAbs(GrowthT(comp, f, v[1], Mag(v), T), g, <<0, 1, 0, 0>>)
BadRefs(r) ==
    LET T == YearT(r.dc, r.s, r.t, r.rs, r.rt)
        g == GrowthT(r.comp, r.f, r.rate[1], Mag(r.rate), T[2])
        known == Measured(r.dc, r)
    IN UNION { LET q == r.q[k]
                   U == YearT(q.dc, r.s, r.t, r.rs, r.rt)
                   fit == T[1] = 1 /\ U[1] = 1 /\ FarFromZero(T[2]) /\ FarFromZero(U[2])
                   c == Mag(q.g)
               IN IF ~known THEN Fail("factor without a reference", Gone(q.cf) /\ Gone(q.df) /\ Gone(q.eq))
                  ELSE (IF T[1] # 1 THEN {} ELSE
                        Fail("factor over a reference period", About(q.cf, g))
                        \cup Fail("discount over a reference period", Sane(q.df) /\ FNearAbs(FMul(Mag(q.df), g), One, <<0, 0, 3000, 0>>)))
                       \cup (IF ~Measured(q.dc, r) THEN Fail("equivalent without a reference", Gone(q.eq) /\ Gone(q.im))
                             ELSE IF ~fit THEN {}
                             ELSE Fail("equivalent over a reference period", AboutFactor(q.comp, q.f, q.eq, U[2], g))
                                  \cup Fail("implied over a reference period", AboutFactor(q.comp, q.f, q.im, U[2], c)))
             : k \in DOMAIN r.q }
Bad(r) == CASE r.k = "times" -> BadTimes(r)
            [] r.k = "implied" -> BadImplied(r)
            [] r.k = "dates" -> BadDates(r)
            [] r.k = "refs" -> BadRefs(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
