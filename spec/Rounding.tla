------------------------------ MODULE Rounding ------------------------------
(* Rounding of n/d to p decimal digits by the OMG rules, on exact integers.   *)
EXTENDS Integers
Modes == {"none", "up", "down", "closest", "ceiling", "floor"}
Abs(x) == IF x < 0 THEN -x ELSE x
Pow10(p) == 10 ^ p
(* |n/d| * 10^p as <<whole, numerator of the dropped fraction, denominator>> *)
Scaled(n, d, p) ==
    LET a == IF p >= 0 THEN Abs(n) * Pow10(p) ELSE Abs(n)
        b == IF p >= 0 THEN d ELSE d * Pow10(-p)
    IN  <<a \div b, a % b, b>>
Reaches(q, digit) == q[2] * 10 >= digit * q[3]
(* the magnitude, in units of 10^-p *)
Magnitude(mode, n, d, p, digit) ==
    LET q == Scaled(n, d, p)
        up == CASE mode = "up" -> q[2] # 0
                [] mode = "down" -> FALSE
                [] mode = "closest" -> Reaches(q, digit)
                [] mode = "ceiling" -> n < 0 /\ Reaches(q, digit)
                [] mode = "floor" -> n >= 0 /\ Reaches(q, digit)
    IN  IF up THEN q[1] + 1 ELSE q[1]
Round(mode, n, d, p, digit) ==
    IF n < 0 THEN -Magnitude(mode, n, d, p, digit) ELSE Magnitude(mode, n, d, p, digit)
(* where a binary approximation of n/d may fall on either side of the rule *)
Delicate(mode, n, d, p, digit) ==
    LET q == Scaled(n, d, p)
        rule == mode = "closest" \/ (mode = "ceiling" /\ n < 0) \/ (mode = "floor" /\ n >= 0)
    IN  IF rule THEN q[2] * 10 = digit * q[3] ELSE q[2] = 0 /\ n # 0
=============================================================================
