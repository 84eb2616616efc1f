----------------------------- MODULE SolverModel ----------------------------
(* An abstract bracketing root finder on a grid: it knows the function only    *)
(* through evaluated points, may evaluate any point of its current bracket,    *)
(* keeps a sub-bracket with a sign change, and may return only when a zero is  *)
(* met or the bracket is as narrow as the accuracy.  Whatever the function and *)
(* whatever points are tried, what it returns is a root to that accuracy.      *)
EXTENDS Solver
CONSTANTS N, Acc, Limit
VARIABLES f, lo, hi, evals, result
vars == <<f, lo, hi, evals, result>>
X == 0..N
Init == /\ f \in [X -> {-1, 0, 1}]
        /\ lo \in X /\ hi \in X /\ lo < hi
        /\ evals = <<lo, hi>>
        /\ result = Refused
Bracketed == Opposite(f[lo], f[hi])
Evaluate == /\ result = Refused /\ Bracketed /\ f[lo] # 0 /\ f[hi] # 0 /\ hi - lo > Acc /\ Len(evals) < Limit
            /\ \E x \in (lo + 1)..(hi - 1) :
                 /\ evals' = Append(evals, x)
                 /\ IF f[x] = 0 \/ f[x] # f[lo] THEN hi' = x /\ lo' = lo ELSE lo' = x /\ hi' = hi
            /\ UNCHANGED <<f, result>>
Return == /\ result = Refused /\ Bracketed
          /\ \/ f[lo] = 0 /\ result' = lo
             \/ f[hi] = 0 /\ result' = hi
             \/ hi - lo <= Acc /\ result' \in lo..hi
          /\ UNCHANGED <<f, lo, hi, evals>>
Next == Evaluate \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
First == evals[1]
Second == evals[2]
Inside == \A k \in DOMAIN evals : First <= evals[k] /\ evals[k] <= Second
ResultInside == result # Refused => First <= result /\ result <= Second
SignChangeNear == result # Refused => \/ f[result] = 0
                    \/ \E a, b \in X : a <= result /\ result <= b /\ b - a <= Acc /\ Opposite(f[a], f[b])
NeverWithout == result # Refused => Opposite(f[First], f[Second])
Keeps == Opposite(f[First], f[Second]) => Opposite(f[lo], f[hi])
=============================================================================
