------------------------------- MODULE Arrays -------------------------------
(* Registers holding number arrays; elements are integers scaled by 64.        *)
EXTENDS Integers, Sequences
Refused == <<-999999999>>
Unit == 64
Each(a, Op(_)) == [k \in DOMAIN a |-> Op(a[k])]
Both(a, b, Op(_, _)) == IF Len(a) # Len(b) THEN Refused ELSE [k \in DOMAIN a |-> Op(a[k], b[k])]
Plus(x, y) == x + y
Minus(x, y) == x - y
(* products and quotients of recorded operands are exact multiples of 1/64 *)
Quot(n, d) == IF (n >= 0) = (d > 0) THEN (IF n < 0 THEN -n ELSE n) \div (IF d < 0 THEN -d ELSE d)
              ELSE -((IF n < 0 THEN -n ELSE n) \div (IF d < 0 THEN -d ELSE d))
Times(x, y) == Quot(x * y, Unit)
Over(x, y) == Quot(x * Unit, y)
Mag(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Total(_)
Total(a) == IF a = <<>> THEN 0 ELSE Head(a) + Total(Tail(a))
Dot(a, b) == IF Len(a) # Len(b) THEN Refused ELSE <<Total([k \in DOMAIN a |-> Times(a[k], b[k])])>>
Neg(a) == Each(a, LAMBDA x : -x)
AbsOf(a) == Each(a, LAMBDA x : Mag(x))
(* whole powers; of powers of two also negative ones *)
RECURSIVE Raised(_, _)
Raised(x, e) == IF e = 0 THEN Unit ELSE IF e < 0 THEN Over(Unit, Raised(x, -e)) ELSE Times(x, Raised(x, e - 1))
PowerOf(a, e) == Each(a, LAMBDA x : Raised(x, e))
Result(op, a, b, c) ==
    CASE op = "add" -> Both(a, b, Plus)
      [] op = "sub" -> Both(a, b, Minus)
      [] op = "mul" -> Both(a, b, Times)
      [] op = "div" -> Both(a, b, Over)
      [] op = "add-number" -> Each(a, LAMBDA x : x + c)
      [] op = "sub-number" -> Each(a, LAMBDA x : x - c)
      [] op = "mul-number" -> Each(a, LAMBDA x : Times(x, c))
      [] op = "div-number" -> Each(a, LAMBDA x : Over(x, c))
      [] op = "power" -> PowerOf(a, c)
      [] op = "neg" -> Neg(a)
      [] op = "abs" -> AbsOf(a)
=============================================================================
