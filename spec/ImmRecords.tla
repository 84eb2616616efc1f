----------------------------- MODULE ImmRecords -----------------------------
(* Judges recorded IMM and CDS-maturity queries (C20, C21).                    *)
EXTENDS Imm, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
B(x) == x = 1
(* dates: [s, isimm, isimm main, next, next main, code (<<>> refused), next code, next code main] *)
BadDates(r) ==
    UNION { LET x == r.q[k]
                s == IF x.s = NullDate THEN r.ev ELSE x.s
                nx(m) == NextImm(s, m)
                nc(m) == IF nx(m) = Refused THEN <<>> ELSE CodeOf(nx(m))
            IN Fail("is-imm-date", B(x.i) = ImmDate(x.s, FALSE) /\ B(x.m) = ImmDate(x.s, TRUE))
               \cup Fail("next-date", x.n = nx(FALSE) /\ x.nm = nx(TRUE))
               \cup Fail("code", x.c = IF ImmDate(x.s, FALSE) THEN CodeOf(x.s) ELSE <<>>)
               \cup Fail("next-code", x.nc = nc(FALSE) /\ x.ncm = nc(TRUE))
          : k \in DOMAIN r.q }
BadCodes(r) ==
    UNION { LET x == r.q[k] IN
            Fail("is-imm-code", B(x.i) = IsCode(x.c, FALSE) /\ B(x.m) = IsCode(x.c, TRUE))
          : k \in DOMAIN r.q }
BadFromCode(r) ==
    UNION { LET x == r.q[k]
                ref == IF x.ref = NullDate THEN r.ev ELSE x.ref
                d == IF IsCode(x.c, FALSE) THEN DateOfCode(x.c, ref) ELSE Refused
                nx(m) == IF d = Refused THEN Refused ELSE NextImm(d, m)
                nc(m) == IF nx(m) = Refused THEN <<>> ELSE CodeOf(nx(m))
            IN Fail("date-of-code", x.d = d)
               \cup Fail("next-date-from-code", x.n = nx(FALSE) /\ x.nm = nx(TRUE))
               \cup Fail("next-code-from-code", x.nc = nc(FALSE) /\ x.ncm = nc(TRUE))
          : k \in DOMAIN r.q }
BadMaturities(r) ==
    UNION { LET x == r.q[k] IN Fail("maturity", x[4] = Maturity(r.s, x[1], x[2], x[3])) : k \in DOMAIN r.q }
    \cup Fail("previous-twentieth",
          LET v == Civil(r.s)
              t == IF v[1] >= 20 THEN Serial(20, v[2], v[3])
                   ELSE IF v[2] = 1 /\ v[3] = MinYear THEN Refused ELSE AddMonths(Serial(20, v[2], v[3]), -1)
          IN  r.p20 = t /\ r.p20q = QuarterTwentieth(r.s))
(* monotone in trade date and tenor, as recorded *)
BadMonotone(r) ==
    UNION { LET a == r.q[k] IN
            UNION { LET b == r.q[j] IN
                    Fail("monotone", ~(a[1] <= b[1] /\ a[2] <= b[2] /\ a[3] > 0 /\ b[3] > 0) \/ a[3] <= b[3])
                  : j \in DOMAIN r.q }
          : k \in DOMAIN r.q }
Bad(r) == CASE r.k = "dates" -> BadDates(r)
            [] r.k = "codes" -> BadCodes(r)
            [] r.k = "from-code" -> BadFromCode(r)
            [] r.k = "maturities" -> BadMaturities(r)
            [] r.k = "monotone" -> BadMonotone(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
