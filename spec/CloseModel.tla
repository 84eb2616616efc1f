----------------------------- MODULE CloseModel -----------------------------
EXTENDS Closeness
CONSTANTS U, Ns
VARIABLES x, y, n
vars == <<x, y, n>>
Some == [kind : {"num"}, sg : {-1, 1}, e : {0}, u : -U..U]
        \cup [kind : {"num"}, sg : {1}, e : {5}, u : {0, 1}]
        \cup [kind : {"zero"}, sg : {1}, e : {0}, u : {0}]
        \cup [kind : {"tiny"}, sg : {-1, 1}, e : {0}, u : 1..6]
        \cup [kind : {"inf"}, sg : {-1, 1}, e : {0}, u : {0}]
        \cup [kind : {"nan"}, sg : {1}, e : {0}, u : {0}]
Init == x \in Some /\ y \in Some /\ n \in Ns
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Symmetric == Close(x, y, n) = Close(y, x, n) /\ CloseEnough(x, y, n) = CloseEnough(y, x, n)
Implies == Close(x, y, n) => CloseEnough(x, y, n)
Reflexive == x = y /\ x.kind # "nan" => Close(x, y, n)
Wider == \A m \in Ns : m >= n /\ x.kind # "tiny" /\ y.kind # "tiny" /\ Close(x, y, n) => Close(x, y, m)
NanNever == x.kind = "nan" => ~CloseEnough(x, y, n)
=============================================================================
