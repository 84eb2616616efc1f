---------------------------- MODULE NumberRecords ---------------------------
(* Judges recorded roundings, bounds, array operations and comparisons         *)
(* (C36 - C39).                                                                *)
EXTENDS Rounding, Sorted, Arrays, TraceRecords
C == INSTANCE Closeness
F == INSTANCE FixedPoint
Fail(name, ok) == IF ok THEN {} ELSE {name}
B(x) == x = 1
NA == -999999999
(* k: round. q: [mode, n, result * 10^p as an integer (or a sentinel), again,   *)
(* the result for a number a whole distance further from zero, less that]      *)
BadRound(r) ==
    UNION { LET x == r.q[k]
                want == Round(x.m, x.n, r.d, r.p, r.g)
            IN  IF x.m = "none" THEN Fail("no-rounding", B(x.same))
                ELSE IF r.d \in {64, 256} THEN Fail("rounding", x.v = want) \cup Fail("rounding-twice", x.w = x.v)
                     \cup (IF x.far = NA THEN {} ELSE Fail("rounding-far", x.far = want))
                ELSE IF Delicate(x.m, x.n, r.d, r.p, r.g)
                THEN Fail("rounding-neighbour", x.v - want \in {-1, 0, 1})
                ELSE Fail("rounding", x.v = want)
          : k \in DOMAIN r.q }
BadBounds(r) ==
    Fail("sorted-input", NonDecreasing(r.s)) \cup
    UNION { LET x == r.q[k] IN
            Fail("lower-bound", x[2] = Lower(r.s, x[1]) /\ x[4] = x[2])
            \cup Fail("upper-bound", x[3] = Upper(r.s, x[1]) /\ x[5] = x[3])
          : k \in DOMAIN r.q }
(* e^x for a multiple x of 1/64, and the sign and size of a recorded number *)
Sized(v) == <<v[2], v[3], v[4], v[5]>>
IsExp(v, x) == v # <<>> /\ v[1] = 1 /\ IF x >= 0 THEN F!FNear(Sized(v), F!FExp(F!Ratio(x, Unit)))
                                        ELSE F!FNear(F!FMul(Sized(v), F!FExp(F!Ratio(-x, Unit))), F!One)
IsLog(v, x) == v # <<>> /\ v[1] \in {1, -1} /\ LET e == F!FExp(Sized(v)) IN
               IF v[1] = 1 THEN F!FNear(e, F!Ratio(x, Unit)) ELSE F!FNear(F!FMul(e, F!Ratio(x, Unit)), F!One)
(* k: array. one operation on registers a, b and number c; out: result; the operands were copied *)
BadArray(r) ==
    CASE r.op = "swap" -> Fail("swap", r.out = r.b /\ r.out2 = r.a)
      [] r.op = "dot" -> Fail("dot-product", r.out = Dot(r.a, r.b))
      [] r.op = "norm" -> Fail("norm", r.out = Dot(r.a, r.a))
      [] r.op = "size" -> Fail("size", r.out = <<Len(r.a)>> /\ (r.out2 = <<1>> <=> r.a = <<>>))
      [] r.op = "index" -> Fail("index", IF r.c < Len(r.a) THEN r.out = <<r.a[r.c + 1]>> ELSE r.out = Refused)
      [] r.op = "set" -> Fail("set", IF r.c < Len(r.a) THEN r.out = [r.a EXCEPT ![r.c + 1] = 7 * Unit] ELSE r.out = Refused)
      [] r.op = "equal" -> Fail("equality", (r.out = <<1>>) <=> r.a = r.b)
      [] r.op = "sqrt" -> Fail("square-root", Len(r.out) = Len(r.a) /\ \A k \in DOMAIN r.a : Times(r.out[k], r.out[k]) = r.a[k] /\ r.out[k] >= 0)
      [] r.op = "square" -> Fail("power", r.out = Both(r.a, r.a, Times))
      [] r.op = "exp" -> Fail("exponential", Len(r.fixed) = Len(r.a) /\ \A k \in DOMAIN r.a : IsExp(r.fixed[k], r.a[k]))
      [] r.op = "log" -> Fail("logarithm", Len(r.fixed) = Len(r.a) /\ \A k \in DOMAIN r.a : IsLog(r.fixed[k], r.a[k]))
      [] r.op = "exp-log" -> Fail("exp-log", r.out = r.a)
      [] OTHER -> Fail(r.op, r.out = Result(r.op, r.a, r.b, r.c))
BadClose(r) ==
    UNION { LET x == r.q[k] IN
            IF ~C!Decided(x.x, x.y) THEN {} ELSE
            Fail("close", B(x.c) = C!Close(x.x, x.y, r.n) /\ B(x.cr) = B(x.c))
            \cup (IF r.n # 42 THEN {} ELSE
                  Fail("close-default", B(x.d) = C!Close(x.x, x.y, 42) /\ B(x.dr) = B(x.d))
                  \cup Fail("close-enough", B(x.en) = C!CloseEnough(x.x, x.y, 42) /\ B(x.enr) = B(x.en)))
          : k \in DOMAIN r.q }
Bad(r) == CASE r.k = "round" -> BadRound(r)
            [] r.k = "bounds" -> BadBounds(r)
            [] r.k = "array" -> BadArray(r)
            [] r.k = "close" -> BadClose(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
