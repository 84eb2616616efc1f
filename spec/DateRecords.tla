---------------------------- MODULE DateRecords ----------------------------
(* Judges what the code said about dates (C01, C02, C03, C04).               *)
EXTENDS Dates, TraceRecords

Fail(name, ok) == IF ok THEN {} ELSE {name}

(* one year of days: obs[k] is what the code reports for the k-th serial of  *)
(* the year: <<serial, ymd(from_serial), ymd(new), doy, weekday, eom serial, *)
(* is_eom (0/1), serial(new), next-day ordering (0/1)>>                      *)
BadYear(r) ==
    LET first == Serial(1, 1, r.y) IN
    Fail("length", Len(r.obs) = YearDays(r.y))
    \cup Fail("leap", r.leap = (IF IsLeap(r.y) THEN 1 ELSE 0))
    \cup UNION { LET o == r.obs[k]  s == first + k - 1 IN
           Fail("serial", o[1] = s /\ o[8] = s)
           \cup Fail("fields", o[2] = Ymd(s))
           \cup Fail("constructed", o[3] = Ymd(s))
           \cup Fail("dayofyear", o[4] = k)
           \cup Fail("weekday", o[5] = Weekday(s))
           \cup Fail("monthend", o[6] = EndOfMonth(s) /\ o[7] = (IF IsEndOfMonth(s) THEN 1 ELSE 0))
           \cup Fail("order", o[9] = 1)
         : k \in 1..Len(r.obs) }
(* which days the code accepts in a month: acc = accepted day numbers *)
BadDays(r) == Fail("days-accepted", {r.acc[k] : k \in DOMAIN r.acc} =
                  {d \in 0..40 : ValidDMY(d, r.m, r.y)})
BadSerials(r) == Fail("serials-refused", \A k \in DOMAIN r.probe :
                  (r.probe[k][2] = 1) <=> InRange(r.probe[k][1]))

(* the first and last supported day, and today by the clock (days since 1970) *)
Describes(x, s) == x = <<s, Ymd(s), Weekday(s), s - Serial(1, 1, YearOf(s)) + 1, 0, 1>>
BadEdges(r) ==
    Fail("first day", Describes(r.min, Serial(1, 1, 1900)))
    \cup Fail("last day", Describes(r.max, Serial(31, 12, 2199)))
    \cup Fail("default evaluation date", \E d \in {r.before, r.after} : Describes(r.context, Serial(1, 1, 1970) + d))
    \cup Fail("today", \E d \in {r.before, r.after} : Describes(r.today, Serial(1, 1, 1970) + d))

(* moves: ops[k] = <<n, unit, results...>> each result is the ymd and the    *)
(* serial of the date produced by one spelling, or <<-1, -1>> if refused     *)
BadMoves(r) ==
    UNION { LET o == r.ops[k]
                e == AddPeriod(r.s, o[1], o[2])
                ey == IF e = Refused THEN -1 ELSE Ymd(e)
            IN Fail("move", \A j \in DOMAIN o[3] : o[3][j][1] = ey /\ o[3][j][2] = e)
          : k \in DOMAIN r.ops }

(* histories of in-place updates: the abstract state is the serial number    *)
RECURSIVE HistBad(_, _, _)
HistBad(s, h, k) ==
    IF k > Len(h) THEN {}
    ELSE LET o == h[k]              \* <<n, unit, refused, serial, ymd, weekday, doy, cmp with start, hash/eq ok>>
             e == AddPeriod(s, o[1], o[2])
             s2 == IF e = Refused THEN s ELSE e
         IN  IF (o[3] = 1) # (e = Refused) THEN {"refusal"}
             ELSE Fail("state", o[4] = s2 /\ o[5] = Ymd(s2) /\ o[6] = Weekday(s2)
                                /\ o[7] = s2 - Serial(1, 1, YearOf(s2)) + 1)
                  \cup Fail("compare", o[8] = (IF s2 > s THEN 1 ELSE IF s2 < s THEN -1 ELSE 0))
                  \cup Fail("equality", o[9] = 1)
                  \cup Fail("difference", o[10] = s2 - s)
                  \cup HistBad(s2, h, k + 1)
BadHist(r) == HistBad(r.s, r.h, 1)

BadNth(r) == \* r.res[w][n+1] = serial or -1
    Fail("nth-weekday", \A w \in 1..7 : \A n \in 0..7 :
             r.res[w][n + 1] = NthWeekday(n, w, r.m, r.y))
BadEaster(r) ==
    Fail("western", r.west = [k \in 1..Len(r.west) |-> EasterMondayDoy(r.y)])
    \cup Fail("orthodox", r.orth = [k \in 1..Len(r.orth) |-> OrthodoxEasterMondayDoy(r.y)])
BadEasterRange(r) == Fail("year-refused", \A k \in DOMAIN r.res : r.res[k] = -1)

Bad(r) == CASE r.k = "year" -> BadYear(r)
            [] r.k = "days" -> BadDays(r)
            [] r.k = "serials" -> BadSerials(r)
            [] r.k = "edges" -> BadEdges(r)
            [] r.k = "moves" -> BadMoves(r)
            [] r.k = "hist" -> BadHist(r)
            [] r.k = "nth" -> BadNth(r)
            [] r.k = "easter" -> BadEaster(r)
            [] r.k = "easterrange" -> BadEasterRange(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
