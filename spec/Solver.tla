------------------------------- MODULE Solver -------------------------------
(* What a one-dimensional root finder may do.  Abscissae are ranks (integers   *)
(* that keep their order and equality); the function is known only through     *)
(* the signs seen: -1, 0, 1.                                                   *)
EXTENDS Integers, Sequences
Refused == -999999999
(* q: the call.  how: "bracket" or "guess"; lo, hi: the given bracket; guess;   *)
(* lb, ub: enforced bounds or Refused; acc: sign of the accuracy                *)
InBounds(q, x) == (q.lb = Refused \/ x >= q.lb) /\ (q.ub = Refused \/ x <= q.ub)
(* calls that must be refused before the function is known *)
Malformed(q) == \/ q.acc <= 0
                \/ q.how = "bracket" /\ (q.lo >= q.hi \/ ~InBounds(q, q.lo) \/ ~InBounds(q, q.hi))
(* where the function may be evaluated *)
MayEvaluate(q, x) == /\ InBounds(q, x)
                     /\ q.how = "bracket" => (q.lo <= x /\ x <= q.hi)
Opposite(s, t) == s * t <= 0
=============================================================================
