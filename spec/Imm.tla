-------------------------------- MODULE Imm ---------------------------------
(* IMM dates and codes, and standard CDS maturities.                          *)
EXTENDS Dates
NullDate == MinSerial          \* stands for "the evaluation date"
ThirdWed(m, y) == NthWeekday(3, 4, m, y)
MainMonth(m) == m % 3 = 0
ImmDate(s, main) == LET v == Civil(s) IN ThirdWed(v[2], v[3]) = s /\ (main => MainMonth(v[2]))
(* months counted from year 0 *)
MonthIndex(s) == LET v == Civil(s) IN 12 * v[3] + v[2] - 1
ThirdOf(k) == IF ~YearOk(k \div 12) THEN Refused ELSE ThirdWed((k % 12) + 1, k \div 12)
(* the first one strictly later: one of the next few months *)
NextImm(s, main) ==
    LET k == MonthIndex(s)
        C == {j \in k..(k + 3) : (main => MainMonth((j % 12) + 1)) /\ (ThirdOf(j) = Refused \/ ThirdOf(j) > s)}
        j == CHOOSE j \in C : \A l \in C : j <= l
    IN  ThirdOf(j)
(* codes as character codes: a month letter and the last digit of the year *)
Letters == <<70, 71, 72, 74, 75, 77, 78, 81, 85, 86, 88, 90>>     \* F G H J K M N Q U V X Z
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
IsCode(cs, main) == Len(cs) = 2 /\ cs[2] \in 48..57
                    /\ \E m \in 1..12 : Letters[m] = Upper(cs[1]) /\ (main => MainMonth(m))
CodeOf(s) == LET v == Civil(s) IN <<Letters[v[2]], 48 + (v[3] % 10)>>
CodeMonth(cs) == CHOOSE m \in 1..12 : Letters[m] = Upper(cs[1])
(* the first IMM date with that code that is not before the reference *)
DateOfCode(cs, ref) ==
    LET m == CodeMonth(cs)
        y0 == YearOf(ref)
        C == {y \in y0..(y0 + 10) : y % 10 = cs[2] - 48 /\ (~YearOk(y) \/ ThirdWed(m, y) >= ref)}
        y == CHOOSE y \in C : \A z \in C : y <= z
    IN  IF YearOk(y) THEN ThirdWed(m, y) ELSE Refused

(* ---- standard CDS maturities; rules as in Schedules: 8 OldCDS 9 CDS 10 CDS2015 *)
QuarterTwentieth(s) ==        \* the 20th of a quarter month on or before s
    LET k == MonthIndex(s)
        At(j) == IF ~YearOk(j \div 12) THEN Refused ELSE Serial(20, (j % 12) + 1, j \div 12)
        C == {j \in (k - 3)..k : MainMonth((j % 12) + 1) /\ (At(j) = Refused \/ At(j) <= s)}
        j == CHOOSE j \in C : \A l \in C : j >= l
    IN  At(j)
(* the roll date in force: under the 2015 rule rolls happen in March and September only *)
RollInForce(s, rule) ==
    LET q == QuarterTwentieth(s)
    IN  IF q = Refused THEN Refused
        ELSE IF rule = 10 /\ MonthOf(q) \in {6, 12} THEN AddMonths(q, -3) ELSE q
NoMaturity == 0
Maturity(s, n, u, rule) ==
    IF rule \notin {8, 9, 10} \/ ~(u = Years \/ (u = Months /\ n % 3 = 0)) \/ (rule = 8 /\ n = 0) THEN Refused
    ELSE LET q == QuarterTwentieth(s)
             r == RollInForce(s, rule)
         IN  IF q = Refused THEN Refused
             ELSE IF rule = 10 /\ MonthOf(q) \in {6, 12} /\ n = 0 THEN NoMaturity
             ELSE IF r = Refused THEN Refused
             ELSE LET t == AddPeriod(r, n, u)
                      m == IF t = Refused THEN Refused ELSE AddMonths(t, 3)
                  IN  IF m = Refused \/ m <= s THEN Refused ELSE m
=============================================================================
