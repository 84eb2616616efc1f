----------------------------- MODULE ArrayModel -----------------------------
(* Laws of the array operations on all small arrays.                           *)
EXTENDS Arrays
CONSTANTS M, L
VARIABLES a, b
vars == <<a, b>>
V == {Unit * k : k \in -M..M}
Init == a = <<>> /\ b = <<>>
Next == \/ Len(a) < L /\ (\E v \in V : a' = Append(a, v)) /\ UNCHANGED b
        \/ Len(b) < L /\ (\E v \in V : b' = Append(b, v)) /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
Same == Len(a) = Len(b)
Commute == Result("add", a, b, 0) = Result("add", b, a, 0) /\ Result("mul", a, b, 0) = Result("mul", b, a, 0)
Inverse == Same => Result("sub", Result("add", a, b, 0), b, 0) = a
NegSub == Same => Result("sub", a, b, 0) = Neg(Result("sub", b, a, 0))
Sizes == \A op \in {"add", "sub", "mul"} :
            IF Same THEN Len(Result(op, a, b, 0)) = Len(a) ELSE Result(op, a, b, 0) = Refused
DotLaw == Same => Dot(a, b) = Dot(b, a) /\ Dot(a, a)[1] >= 0 /\ (Dot(a, a)[1] = 0 <=> \A k \in DOMAIN a : a[k] = 0)
                  /\ Dot(a, b) = <<Total(Result("mul", a, b, 0))>>
AbsLaw == AbsOf(Neg(a)) = AbsOf(a) /\ Dot(AbsOf(a), AbsOf(a)) = Dot(a, a)
PowerLaw == /\ PowerOf(a, 2) = Result("mul", a, a, 0) /\ PowerOf(a, 1) = a /\ PowerOf(a, 3) = Result("mul", a, PowerOf(a, 2), 0)
            /\ PowerOf(Neg(a), 3) = Neg(PowerOf(a, 3)) /\ PowerOf(a, 0) = Each(a, LAMBDA x : Unit)
CauchySchwarz == Same => Dot(a, b)[1] * Dot(a, b)[1] <= Dot(a, a)[1] * Dot(b, b)[1]
=============================================================================
