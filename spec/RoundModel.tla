----------------------------- MODULE RoundModel -----------------------------
(* All values n/64 with |n| <= N: the rules give a neighbour, keep what is     *)
(* representable, are monotone and have the stated symmetries.                 *)
EXTENDS Rounding
CONSTANT N
VARIABLES n, p, digit
vars == <<n, p, digit>>
D == 64
Init == n = -N /\ p \in 0..2 /\ digit \in 1..9
Next == n < N /\ n' = n + 1 /\ UNCHANGED <<p, digit>>
Spec == Init /\ [][Next]_vars
Rules == Modes \ {"none"}
R(m, x) == Round(m, x, D, p, digit)
Keeps == \A m \in Rules : (Abs(n) * Pow10(p)) % D = 0 => R(m, n) * D = n * Pow10(p)
Neighbour == \A m \in Rules : Abs(R(m, n) * D - n * Pow10(p)) < D
Away == Abs(R("up", n)) * D >= Abs(n) * Pow10(p)
Toward == Abs(R("down", n)) * D <= Abs(n) * Pow10(p)
Odd == \A m \in Rules \ {"ceiling", "floor"} : R(m, -n) = -R(m, n)
Mirror == R("ceiling", -n) = -R("floor", n) \/ n = 0
Split == /\ n > 0 => R("floor", n) = R("closest", n) /\ R("ceiling", n) = R("down", n)
         /\ n < 0 => R("ceiling", n) = R("closest", n) /\ R("floor", n) = R("down", n)
Nearest == digit = 5 => 2 * Abs(R("closest", n) * D - n * Pow10(p)) <= D
(* moving away from zero by a whole number moves the result with it *)
Moves == n > 0 => \A m \in Rules, w \in {1, 7} : Round(m, n + w * D, D, p, digit) = R(m, n) + w * Pow10(p)
              /\ Round(m, -n - w * D, D, p, digit) = R(m, -n) - w * Pow10(p)
Monotone == [][\A m \in Rules : R(m, n) <= Round(m, n', D, p, digit)]_vars
=============================================================================
