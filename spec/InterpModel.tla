---------------------------- MODULE InterpModel -----------------------------
(* All small node sets: the piecewise line meets its nodes, preserves straight *)
(* lines, its primitive grows by trapezoids; the Lagrange form of a polynomial *)
(* through its own values is that polynomial.                                  *)
EXTENDS Interpolation
CONSTANTS L, Gap, M
VARIABLES xs, ys
vars == <<xs, ys>>
Init == \E y \in -M..M : xs = <<-1>> /\ ys = <<y>>
Next == /\ Len(xs) < L
        /\ \E g \in 1..Gap, y \in -M..M : xs' = Append(xs, xs[Len(xs)] + g) /\ ys' = Append(ys, y)
Spec == Init /\ [][Next]_vars
Ready == Len(xs) >= 2
Q == (xs[1] - 2)..(xs[Len(xs)] + 2)
Nodes == Ready => \A k \in DOMAIN xs : Same(Line(xs, ys, xs[k]), <<ys[k], 1>>)
Convex == Ready => \A x \in Q : LET k == Segment(xs, x)  v == Line(xs, ys, x) IN
              InRange(xs, x) => /\ xs[k] <= x /\ x <= xs[k + 1]
                                /\ v[1] <= v[2] * (IF ys[k] > ys[k + 1] THEN ys[k] ELSE ys[k + 1])
                                /\ v[1] >= v[2] * (IF ys[k] < ys[k + 1] THEN ys[k] ELSE ys[k + 1])
(* the primitive over one grid step is the trapezoid of the two values *)
Areas == Ready => \A x \in Q \ {xs[1] - 2} :
            LET a == Primitive(xs, ys, x)  b == Primitive(xs, ys, x - 1)
                v == Line(xs, ys, x)  w == Line(xs, ys, x - 1)
            IN  2 * Grid * (a[1] * b[2] - b[1] * a[2]) * v[2] * w[2] = (v[1] * w[2] + w[1] * v[2]) * a[2] * b[2]
StartsAtZero == Ready => Primitive(xs, ys, xs[1])[1] = 0
SlopeIsDifference == Ready => \A x \in Q : LET s == Slope(xs, ys, x)  k == Segment(xs, x) IN
            (x + 1 <= xs[k + 1] \/ x >= xs[Len(xs)]) =>
              LET v == Line(xs, ys, x)  w == Line(xs, ys, x + 1)
              IN  (w[1] * v[2] - v[1] * w[2]) * Grid * s[2] = s[1] * v[2] * w[2]
(* ys as coefficients of a polynomial sampled on xs *)
Samples == [k \in DOMAIN xs |-> PolyAt(ys, xs[k], 1)[1]]
Unique == Ready /\ Len(xs) <= 3 => \A x \in Q : Same(LagrangeSum(xs, Samples, x, 1), PolyAt(ys, x, 1))
=============================================================================
