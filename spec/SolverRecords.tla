---------------------------- MODULE SolverRecords ---------------------------
(* Judges recorded searches (C33): q is the call, e the evaluations in order    *)
(* (<<rank, sign>>), res the returned rank, s the signs at res - tol, res and   *)
(* res + tol (asked afterwards), limit the evaluation limit, easy: a continuous *)
(* function with one simple, well separated root that has to be found.          *)
EXTENDS Solver, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
Least(e) == CHOOSE v \in {e[k][1] : k \in DOMAIN e} : \A k \in DOMAIN e : v <= e[k][1]
Most(e) == CHOOSE v \in {e[k][1] : k \in DOMAIN e} : \A k \in DOMAIN e : v >= e[k][1]
SignAt(e, x) == LET ks == {k \in DOMAIN e : e[k][1] = x} IN IF ks = {} THEN Refused ELSE e[CHOOSE k \in ks : TRUE][2]
NoChange(r) == r.q.how = "bracket" /\ r.fl # 0 /\ r.fh # 0 /\ r.fl = r.fh
GuessOutside(r) == r.q.how = "bracket" /\ (r.q.guess < r.q.lo \/ r.q.guess > r.q.hi) /\ r.fl # 0 /\ r.fh # 0
AtEnd(r) == r.q.how = "bracket" /\ (r.q.guess = r.q.lo \/ r.q.guess = r.q.hi)
Ends(r) == IF r.q.how = "bracket" THEN <<r.q.lo, r.q.hi>> ELSE <<Least(r.e), Most(r.e)>>
Bad(r) ==
    Fail("evaluates-inside", \A k \in DOMAIN r.e : MayEvaluate(r.q, r.e[k][1]))
    \cup Fail("evaluation-limit", Len(r.e) <= IF r.solver = 2 THEN 2 * r.limit + 6 ELSE r.limit + 5)
    \cup (IF r.res = Refused
          THEN Fail("finds-easy-root", r.easy = 0)
               (* a well-posed search is given up only when the evaluations are used up *)
               \cup Fail("gives-up-early", Malformed(r.q) \/ NoChange(r) \/ GuessOutside(r) \/ AtEnd(r) \/ Len(r.e) + 5 >= r.limit)
          ELSE Fail("refuses-malformed", ~Malformed(r.q))
               \cup Fail("refuses-without-sign-change", ~NoChange(r))
               \cup Fail("refuses-guess-outside", ~GuessOutside(r))
               \cup Fail("result-in-bracket", InBounds(r.q, r.res) /\ (r.e = <<>> \/ (Ends(r)[1] <= r.res /\ r.res <= Ends(r)[2])))
               \cup Fail("result-is-root", r.s[2] = 0 \/ Opposite(r.s[1], r.s[3])))
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
