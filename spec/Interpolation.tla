---------------------------- MODULE Interpolation ---------------------------
(* Piecewise-linear and polynomial interpolation on exact rationals.  Points  *)
(* are integers in units of 1/Grid, node values are integers; a number is a    *)
(* pair <<numerator, denominator>>, denominator > 0.                           *)
EXTENDS Integers, Sequences
Grid == 8
Frac(a, b) == IF b > 0 THEN <<a, b>> ELSE <<-a, -b>>
Same(p, q) == p[1] * q[2] = q[1] * p[2]
(* six decimals, rounded toward zero *)
RECURSIVE Digit6(_, _, _, _)
Digit6(r, d, k, acc) == IF k = 0 THEN acc ELSE Digit6((10 * r) % d, d, k - 1, 10 * acc + ((10 * r) \div d))
Decimals(p) == IF p[1] >= 0 THEN (p[1] \div p[2]) * 1000000 + Digit6(p[1] % p[2], p[2], 6, 0)
               ELSE -(((-p[1]) \div p[2]) * 1000000 + Digit6((-p[1]) % p[2], p[2], 6, 0))

(* the segment a query belongs to: the right-hand one at an inner node, the end
   segments prolonged outside *)
Segment(xs, x) == IF x >= xs[Len(xs)] THEN Len(xs) - 1
                  ELSE IF x < xs[1] THEN 1
                  ELSE CHOOSE k \in 1..(Len(xs) - 1) : xs[k] <= x /\ x < xs[k + 1]
InRange(xs, x) == xs[1] <= x /\ x <= xs[Len(xs)]
Dx(xs, k) == xs[k + 1] - xs[k]
Dy(ys, k) == ys[k + 1] - ys[k]
Line(xs, ys, x) == LET k == Segment(xs, x)
                   IN  Frac(ys[k] * Dx(xs, k) + (x - xs[k]) * Dy(ys, k), Dx(xs, k))
Slope(xs, ys, x) == LET k == Segment(xs, x) IN Frac(Grid * Dy(ys, k), Dx(xs, k))
(* twice Grid times the area up to node k *)
RECURSIVE Area2(_, _, _)
Area2(xs, ys, k) == IF k = 1 THEN 0 ELSE Area2(xs, ys, k - 1) + (ys[k - 1] + ys[k]) * (xs[k] - xs[k - 1])
Primitive(xs, ys, x) ==
    LET k == Segment(xs, x)
        t == x - xs[k]
        d == Dx(xs, k)
    IN  Frac(Area2(xs, ys, k) * d + t * (2 * ys[k] * d + t * Dy(ys, k)), 2 * Grid * d)

(* the polynomial c[1] + c[2] z + c[3] z^2 + ... and its derivative at z = p/g *)
RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)
RECURSIVE Poly(_, _, _, _)
Poly(c, p, g, k) == IF k > Len(c) THEN 0
                    ELSE c[k] * Power(p, k - 1) * Power(g, Len(c) - k) + Poly(c, p, g, k + 1)
PolyAt(c, p, g) == Frac(Poly(c, p, g, 1), Power(g, Len(c) - 1))
Derived(c) == IF Len(c) = 1 THEN <<0>> ELSE [k \in 1..(Len(c) - 1) |-> k * c[k + 1]]
(* the Lagrange form, as a sum of rationals over a common denominator *)
RECURSIVE ProdOver(_, _, _, _)
ProdOver(xs, x, j, k) == IF k > Len(xs) THEN 1
                         ELSE (IF k = j THEN 1 ELSE x - xs[k]) * ProdOver(xs, x, j, k + 1)
RECURSIVE LagrangeSum(_, _, _, _)
LagrangeSum(xs, ys, x, j) ==
    IF j > Len(xs) THEN <<0, 1>>
    ELSE LET a == Frac(ys[j] * ProdOver(xs, x, j, 1), ProdOver(xs, xs[j], j, 1))
             b == LagrangeSum(xs, ys, x, j + 1)
         IN  <<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>
=============================================================================
