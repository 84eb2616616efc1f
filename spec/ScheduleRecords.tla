--------------------------- MODULE ScheduleRecords --------------------------
(* Judges generated, truncated, searched and built schedules (C15 - C19).     *)
EXTENDS Schedules, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
SetOf(q) == {q[k] : k \in DOMAIN q}
HolOf(r, HS, s) == s \in HS \/ (r.base = 2 /\ Weekday(s) \in {1, 7})
Req(x) == [eff |-> x.eff, term |-> x.term, n |-> x.n, u |-> x.u, conv |-> x.conv, tconv |-> x.tconv,
           rule |-> x.rule, eom |-> x.eom = 1, first |-> x.first, ntl |-> x.ntl, ev |-> x.ev]
Flags(rs) == [j \in DOMAIN rs |-> rs[j] = 1]
Same(s, g) == IF g.phase = "refused" THEN s.d = <<>> ELSE s.d = g.dates /\ Flags(s.r) = g.reg

(* C16 / C17: exactly the generated schedule *)
BadExact(r) ==
    LET HS == SetOf(r.hol)
        H(s) == HolOf(r, HS, s)
    IN UNION { LET x == r.q[k].s
                   c == Req(r.q[k].c)
                   g == Generate(c, H)
               IN (IF Same(x, g) THEN {}
                   ELSE IF x.d = <<>> THEN {"refused-though-valid"}
                   ELSE IF g.phase = "refused" THEN {"not-refused"}
                   ELSE IF x.d # g.dates THEN {"dates"} ELSE {"flags"})
                  \cup Fail("accessors", x.ok = 1)
                  \cup Fail("options", x.d = <<>> \/
                        (x.cv = c.conv /\ x.eom = (IF EomOn(c) THEN 1 ELSE 0)
                         /\ (RuleOf(c) # Zero => x.n = c.n /\ x.u = c.u)
                         /\ (RuleOf(c) = Zero => x.n = 0)))
             : k \in DOMAIN r.q }
(* C15: the shape of whatever schedule was produced *)
BadShape(r) ==
    LET HS == SetOf(r.hol)
        H(s) == HolOf(r, HS, s)
    IN UNION { LET x == r.q[k].s
                   c == Req(r.q[k].c)
               IN IF x.d = <<>> THEN {}
                  ELSE Fail("increasing", Increasing(x.d))
                       \cup Fail("flags", FlagsFit(x.d, x.r) /\ FlagsPlaced(c, Flags(x.r)))
                       \cup Fail("ends", EndsFit(c, H, x.d))
                       \cup Fail("inner-business-days", InnerBusiness(c, H, x.d))
                       \cup Fail("accessors", x.ok = 1)
             : k \in DOMAIN r.q }
S(x) == [d |-> x.d, r |-> Flags(x.r)]
BadCuts(r) ==
    LET s == S(r.s) IN
    UNION { LET q == r.q[k] IN
            Fail("after", S(q.a) = After(s, q.t))
            \cup Fail("until", S(q.u) = Until(s, q.t))
            \cup Fail("next-date", q.nx = NextDate(s, q.t))
            \cup Fail("previous-date", q.pv = PreviousDate(s, q.t))
            \cup Fail("accessors", q.a.ok = 1 /\ q.u.ok = 1)
            \cup Fail("options-kept", \A x \in {q.a, q.u} : x.d = <<>> \/ (x.n = r.s.n /\ x.u = r.s.u /\ x.eom = r.s.eom /\ x.cv = r.s.cv))
          : k \in DOMAIN r.q }
    \cup Fail("search-from-evaluation-date", r.nd = <<NextDate(s, r.ev), PreviousDate(s, r.ev)>>)
    \cup Fail("original-untouched", r.again = r.s)
RECURSIVE BadChain(_, _, _)
BadChain(ch, s, k) ==
    IF k > Len(ch) THEN {}
    ELSE LET e == IF ch[k].after = 1 THEN After(s, ch[k].t) ELSE Until(s, ch[k].t)
         IN  Fail("cut-chain", S(ch[k].s) = e)
             \cup BadChain(ch, IF e.d = <<>> THEN s ELSE e, k + 1)
(* builder: the last value of each option counts *)
RECURSIVE Options(_, _, _)
Options(ops, o, k) == IF k > Len(ops) THEN o
                      ELSE Options(ops, [o EXCEPT ![ops[k][1]] = ops[k][2]], k + 1)
BadBuilder(r) ==
    LET HS == SetOf(r.hol)
        H(s) == HolOf(r, HS, s)
    IN UNION { LET q == r.q[k]
                   o == Options(q.ops, [j \in 1..8 |-> IF j = 3 THEN Backward ELSE 0], 1)
                   cv == IF o[1] = 0 THEN Following ELSE o[1]
                   c == [eff |-> q.eff, term |-> q.term, n |-> q.n, u |-> q.u, conv |-> cv,
                         tconv |-> IF o[2] = 0 THEN cv ELSE o[2], rule |-> o[3], eom |-> o[6] = 1,
                         first |-> o[7], ntl |-> o[8], ev |-> q.ev]
               IN Fail("built", Same(q.s, Generate(c, H)))
                  \cup Fail("options", q.s.d = <<>> \/ (q.s.cv = cv /\ q.s.ok = 1))
             : k \in DOMAIN r.q }

Bad(r) == CASE r.k = "exact" -> BadExact(r)
            [] r.k = "shape" -> BadShape(r)
            [] r.k = "cuts" -> BadCuts(r) \cup BadChain(r.chain, S(r.s), 1)
            [] r.k = "builder" -> BadBuilder(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
