----------------------------- MODULE Closeness ------------------------------
(* Comparison of floating-point numbers up to n times the machine epsilon.     *)
(* A number is a record: kind "num": sign * 2^e * (1 + u * eps/2), u a small   *)
(* integer; "zero"; "tiny": sign * u/4 times the squared tolerance, of the n   *)
(* it is compared with; "inf" and "nan".                                       *)
EXTENDS Integers
Num(x) == x.kind = "num"
(* n eps |x| >= |x - y|, for two numbers of one sign and scale; exact for      *)
(* n |u| < 2^52 *)
Within(dist, n, u) == IF u >= 0 THEN dist <= 2 * n ELSE dist < 2 * n
Dist(x, y) == IF x.u > y.u THEN x.u - y.u ELSE y.u - x.u
SameScale(x, y) == x.sg = y.sg /\ x.e = y.e
Identical(x, y) == x.kind = y.kind /\ x.kind # "nan" /\
                   CASE Num(x) -> x.sg = y.sg /\ x.e = y.e /\ x.u = y.u
                     [] x.kind = "zero" -> TRUE
                     [] x.kind = "tiny" -> x.sg = y.sg /\ x.u = y.u
                     [] x.kind = "inf" -> x.sg = y.sg
                     [] OTHER -> FALSE
NearZero(x, n) == CASE x.kind = "zero" -> TRUE
                    [] x.kind = "tiny" -> x.u < 4
                    [] Num(x) -> x.e < -120         \* below 2^-104
                    [] OTHER -> FALSE
Close(x, y, n) == \/ Identical(x, y)
                  \/ (x.kind = "zero" \/ y.kind = "zero") /\ NearZero(x, n) /\ NearZero(y, n)
                  \/ Num(x) /\ Num(y) /\ SameScale(x, y) /\ Within(Dist(x, y), n, x.u) /\ Within(Dist(x, y), n, y.u)
CloseEnough(x, y, n) ==
                  \/ Identical(x, y)
                  \/ (x.kind = "zero" \/ y.kind = "zero") /\ NearZero(x, n) /\ NearZero(y, n)
                  \/ Num(x) /\ Num(y) /\ SameScale(x, y) /\ (Within(Dist(x, y), n, x.u) \/ Within(Dist(x, y), n, y.u))
(* pairs the abstraction decides *)
Decided(x, y) == /\ ~(x.kind = "inf" /\ y.kind # "nan" /\ ~Identical(x, y))
                 /\ ~(y.kind = "inf" /\ x.kind # "nan" /\ ~Identical(x, y))
                 /\ (x.kind = "tiny" => y.kind \in {"zero", "nan"} \/ Identical(x, y))
                 /\ (y.kind = "tiny" => x.kind \in {"zero", "nan"} \/ Identical(x, y))
                 /\ (Num(x) /\ Num(y) => x.sg # y.sg \/ x.e = y.e \/ x.e - y.e > 1 \/ y.e - x.e > 1)
=============================================================================
