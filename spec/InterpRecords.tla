---------------------------- MODULE InterpRecords ---------------------------
(* Judges recorded interpolations (C34, C35).                                  *)
EXTENDS Interpolation, TraceRecords
Fail(name, ok) == IF ok THEN {} ELSE {name}
NA == -999999999
Near(v, p) == LET w == Decimals(p) IN v # NA /\ v - w \in -3..3
(* too large for the six-decimal record *)
Big(p) == p[1] >= 2000 * p[2] \/ p[1] <= -2000 * p[2]
Agrees(v, p) == Big(p) \/ Near(v, p)
(* u: the query lies u machine epsilons (relative) outside the end it names *)
Allowed(xs, x, u) == InRange(xs, x) /\ u <= 42
(* close to a node (within a millionth) only slopes can tell the value from the node's *)
Slopes(v, p) == Big(p) \/ LET w == Decimals(p) IN v # NA /\ v - w \in -30000..30000
BadLinear(r) ==
    Fail("beside a node", \A k \in DOMAIN r.by : LET q == r.by[k]
                              a == IF q.right = 1 THEN q.j ELSE q.j - 1
                              D == Slope(<<r.xs[a], r.xs[a + 1]>>, <<r.ys[a], r.ys[a + 1]>>, r.xs[a])
                          IN  Slopes(q.c, D) /\ Slopes(q.d, D)) \cup
    UNION { LET x == r.q[k]
                ok == Allowed(r.xs, x.x, x.u)
                V == Line(r.xs, r.ys, x.x)
                D == Slope(r.xs, r.ys, x.x)
                P == Primitive(r.xs, r.ys, x.x)
            IN Fail("value", IF ok THEN Agrees(x.v, V) ELSE x.v = NA)
               \cup Fail("derivative", IF ok THEN Agrees(x.d, D) ELSE x.d = NA)
               \cup Fail("second-derivative", IF ok THEN x.s = 0 ELSE x.s = NA)
               \cup Fail("primitive", IF ok THEN Agrees(x.p, P) ELSE x.p = NA)
               \cup Fail("extrapolated-value", Agrees(x.ev, V))
               \cup Fail("extrapolated-derivative", Agrees(x.ed, D))
               \cup Fail("extrapolated-second-derivative", x.es = 0)
               \cup Fail("extrapolated-primitive", Agrees(x.ep, P))
               \cup Fail("range", (x.r = 1) <=> ok)
          : k \in DOMAIN r.q }
    \cup UNION { LET x == r.at[k]
                      ok == Allowed(r.xs, x.x, x.u)
                  IN Fail("segment", x.i = Segment(r.xs, x.x))
                     \cup Fail("range check", (x.c = 1) <=> ok)
                     \cup Fail("range check when extrapolating", x.ce = 1)
                : k \in DOMAIN r.at }
    \cup Fail("no point of the line", \A k \in DOMAIN r.odd : r.odd[k] = 0)
    \cup Fail("ends", r.lo = r.xs[1] /\ r.hi = r.xs[Len(r.xs)])
BadLagrange(r) ==
    Fail("beside a node", \A k \in DOMAIN r.by : LET q == r.by[k]
                              D == PolyAt(Derived(r.c), r.xs[q.j], Grid)
                          IN  Slopes(q.c, D) /\ Slopes(q.d, D)) \cup
    Fail("no point of the polynomial", \A k \in DOMAIN r.odd : r.odd[k] = 0) \cup
    Fail("nodes", \A k \in DOMAIN r.xs : Agrees(r.ys[k], PolyAt(r.c, r.xs[k], Grid))) \cup
    UNION { LET x == r.q[k]
                ok == Allowed(r.xs, x.x, x.u)
                V == PolyAt(r.c, x.x, Grid)
                D == PolyAt(Derived(r.c), x.x, Grid)
            IN Fail("value", IF ok THEN Agrees(x.v, V) ELSE x.v = NA)
               \cup Fail("derivative", IF ok THEN Agrees(x.d, D) ELSE x.d = NA)
               \cup Fail("extrapolated-value", Agrees(x.ev, V))
               \cup Fail("extrapolated-derivative", x.u > 42 \/ Agrees(x.ed, D))
               \cup Fail("range", (x.r = 1) <=> ok)
          : k \in DOMAIN r.q }
    \cup UNION { LET x == r.at[k]
                      ok == Allowed(r.xs, x.x, x.u)
                  \* at the last node itself either neighbour may be named; one node has no segment
                  IN Fail("segment", Len(r.xs) < 2 \/ x.x = r.xs[Len(r.xs)] \/ x.i = Segment(r.xs, x.x))
                     \cup Fail("range check", (x.c = 1) <=> ok)
                     \cup Fail("range check when extrapolating", x.ce = 1)
                : k \in DOMAIN r.at }
    \cup Fail("ends", r.lo = r.xs[1] /\ r.hi = r.xs[Len(r.xs)])
Bad(r) == CASE r.k = "linear" -> BadLinear(r)
            [] r.k = "lagrange" -> BadLagrange(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
