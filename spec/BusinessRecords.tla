--------------------------- MODULE BusinessRecords --------------------------
(* Judges adjustment, advancing, lists and override histories (C08 - C11).    *)
EXTENDS BusinessDays, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
SetOf(q) == {q[k] : k \in DOMAIN q}

(* r.hol = the days of r.lo..r.hi for which the calendar's holiday test is     *)
(* true; q[k] = <<date, results for the 7 conventions, results adjusted again>> *)
BadAdj(r) ==
    LET HS == SetOf(r.hol)
        H(s) == s \in HS
    IN UNION { LET q == r.q[k] IN
         UNION { LET e == Adjust(H, q[1], c) IN
                 Fail("adjust", q[2][c] = e) \cup Fail("idempotent", q[3][c] = e)
               : c \in Conventions }
         \cup Fail("following-shorthand", q[4] = Adjust(H, q[1], Following))
       : k \in DOMAIN r.q }

(* q[k] = <<date, n, unit, convention, eom, results of the spellings>>         *)
BadAdv(r) ==
    LET HS == SetOf(r.hol)
        H(s) == s \in HS
    IN UNION { LET q == r.q[k]
                   e == Advance(H, q[1], q[2], q[3], q[4], q[5] = 1)
                   f == Advance(H, q[1], q[2], q[3], Following, q[5] = 1)
               IN Fail("advance", q[6][1] = e /\ q[6][2] = e)
                  \cup Fail("advance-following", q[6][3] = f /\ q[6][4] = f)
       : k \in DOMAIN r.q }

(* q[k] = <<from, to, holidays, holidays without weekends, business days,      *)
(*          counts for (first,last) = TT TF FT FF, the same swapped>>          *)
Flags == <<<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<FALSE, FALSE>>>>
BadLists(r) ==
    LET HS == SetOf(r.hol)
        H(s) == s \in HS
        We(s) == Weekday(s) \in SetOf(r.we)
    IN UNION { LET q == r.q[k]  a == q[1]  b == q[2] IN
               Fail("holiday-list", q[3] = HolidayList(H, a, b))
               \cup Fail("holiday-list-weekdays", q[4] = SelectSeq(HolidayList(H, a, b), LAMBDA s : ~We(s)))
               \cup Fail("business-list", q[5] = BusinessList(H, a, b))
               \cup UNION { Fail("count", q[6][f] = BusinessBetween(H, a, b, Flags[f][1], Flags[f][2]))
                            \cup Fail("count-swapped", q[7][f] = BusinessBetween(H, b, a, Flags[f][1], Flags[f][2]))
                          : f \in 1..4 }
             : k \in DOMAIN r.q }
       \cup UNION { LET e == r.eom[k] IN
               Fail("month-end", e[2] = LastBusinessOfMonth(H, e[1]))
               \cup Fail("at-month-end", (e[3] = 1) = AtMonthEnd(H, e[1]))
             : k \in DOMAIN r.eom }
BadRefused(r) == Fail("reversed-interval-refused", \A k \in DOMAIN r.res : r.res[k] = -1)

(* override histories: days = the days operated on, builtin = built-in         *)
(* holidays in the window; steps[k] = observations after the k-th operation    *)
RECURSIVE OvrBad(_, _, _, _)
OvrBad(r, ov, cp, k) ==
    IF k > Len(r.steps) THEN {}
    ELSE LET st == r.steps[k]
             op == st.op \div 10
             d == st.op % 10
             ov2 == CASE op = 1 -> [ov EXCEPT ![r.days[d]] = 1]
                      [] op = 2 -> [ov EXCEPT ![r.days[d]] = 2]
                      [] op = 3 -> [x \in DOMAIN ov |-> 0]
                      [] op = 4 -> ov
                      [] op = 5 -> cp
             cp2 == IF op = 4 THEN ov ELSE IF op = 5 THEN ov ELSE cp
             BS == SetOf(r.builtin)
             HolS(o) == (BS \ {x \in DOMAIN o : o[x] = 2}) \cup {x \in DOMAIN o : o[x] = 1}
             HS == HolS(ov2)
             H(s) == s \in HS
             We(s) == Weekday(s) \in SetOf(r.we)
         IN  Fail("holidays", st.hol = HolidayList(H, r.lo, r.hi))
             \cup Fail("list", st.list = HolidayList(H, r.a, r.b))
             \cup Fail("weekday-list", st.nw = SelectSeq(HolidayList(H, r.a, r.b), LAMBDA s : ~We(s)))
             \cup Fail("business", st.bd = BusinessList(H, r.a, r.b))
             \cup Fail("added", SetOf(st.added) = HS \ BS)
             \cup Fail("removed", SetOf(st.removed) = BS \ HS)
             \cup Fail("adjust", \A j \in DOMAIN st.adj : st.adj[j] = [c \in Conventions |-> Adjust(H, r.days[j], c)])
             \cup Fail("advance", st.adv = [j \in DOMAIN r.days |-> Walk(H, r.days[j], 2)])
             \cup Fail("advance-back", st.bck = [j \in DOMAIN r.days |-> Walk(H, r.days[j], -2)])
             \cup Fail("month-end", st.eom = [j \in DOMAIN r.days |->
                        <<LastBusinessOfMonth(H, r.days[j]), IF AtMonthEnd(H, r.days[j]) THEN 1 ELSE 0>>])
             \cup Fail("count", st.cnt = BusinessBetween(H, r.a, r.b, TRUE, TRUE))
             \* asked just before and again just after the operation: only the state counts
             \cup Fail("asked-before", st.still = [j \in DOMAIN r.days |->
                        <<IF r.days[j] \in HS THEN 1 ELSE 0, Adjust(H, r.days[j], 1)>>])
             \cup Fail("asked-before-lists", /\ st.scnt = st.cnt /\ st.slist = st.list
                                             /\ st.seom = LastBusinessOfMonth(H, r.days[1]))
             \cup Fail("copy", st.cp = HolidayList(LAMBDA s : s \in HolS(cp2), r.lo, r.hi))
             \cup Fail("fresh", st.fresh = r.builtin)
             \cup OvrBad(r, ov2, cp2, k + 1)
BadOvr(r) == LET z == [x \in SetOf(r.days) |-> 0] IN OvrBad(r, z, z, 1)

Bad(r) == CASE r.k = "adj" -> BadAdj(r)
            [] r.k = "adv" -> BadAdv(r)
            [] r.k = "lists" -> BadLists(r)
            [] r.k = "refused" -> BadRefused(r)
            [] r.k = "ovr" -> BadOvr(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
