------------------------------ MODULE Fractions -----------------------------
(* Year fractions of the simple day counters as exact pairs <<n, d>>, n >= 0,  *)
(* for s <= t.                                                                 *)
EXTENDS DayCounts
YearPair(dc, s, t) ==
    CASE dc = "actual360" -> <<t - s, 360>>
      [] dc = "actual366" -> <<t - s, 366>>
      [] dc = "actual360-inc" -> <<t - s + 1, 360>>      \* the last day counts too
      [] dc = "actual366-inc" -> <<t - s + 1, 366>>
      [] dc = "bond-basis" -> <<BondBasis(s, t), 360>>
      [] dc = "european" -> <<EuroBasis(s, t), 360>>
      [] dc = "usa" -> <<USBasis(s, t), 360>>
      [] dc = "thirty365" -> <<Plain(s, t), 365>>
      [] dc = "simple" -> <<Simple360(s, t), 360>>
      [] dc = "one" -> <<1, 1>>
DaysOf(dc, s, t) ==
    CASE dc \in {"actual360", "actual366"} -> t - s
      [] dc \in {"actual360-inc", "actual366-inc"} -> t - s + 1
      [] dc = "bond-basis" -> BondBasis(s, t)
      [] dc = "simple" -> BondBasis(s, t)
      [] dc = "european" -> EuroBasis(s, t)
      [] dc = "usa" -> USBasis(s, t)
      [] dc = "thirty365" -> Plain(s, t)
      [] dc = "one" -> 1
=============================================================================
