---------------------------- MODULE ScheduleModel ---------------------------
(* Exhaustive exploration of the schedule generator: every request over small *)
(* windows, stepped through all phases; the declarative requirements are       *)
(* checked in the final states and progress requirements in all of them.       *)
EXTENDS Schedules, TLC
CONSTANTS Size          \* 1 = small, 2 = larger
VARIABLES c, g
vars == <<c, g>>
(* weekends and a few extra holidays around month ends and mid-months *)
Extra == {Serial(1, 1, 2021), Serial(29, 1, 2021), Serial(31, 3, 2021), Serial(1, 4, 2021), Serial(2, 4, 2021),
          Serial(16, 6, 2021), Serial(21, 12, 2020), Serial(15, 2, 2021), Serial(20, 9, 2021)}
H(s) == Weekday(s) \in {1, 7} \/ s \in Extra
Effs == IF Size = 1 THEN {Serial(31, 12, 2020), Serial(17, 2, 2021)}
        ELSE {Serial(31, 12, 2020), Serial(30, 1, 2021), Serial(17, 2, 2021), Serial(19, 12, 2020)}
Spans == IF Size = 1 THEN {5, 29, 90, 151} ELSE {1, 5, 29, 59, 90, 92, 151}
Tenors == IF Size = 1 THEN {<<0, Years>>, <<6, Days>>, <<1, Months>>, <<3, Months>>}
          ELSE {<<0, Years>>, <<-1, Months>>, <<1, Days>>, <<2, Weeks>>, <<1, Months>>, <<3, Months>>}
Convs == IF Size = 1 THEN {1, 2, 5} ELSE {1, 2, 3, 5, 7}
TConvs == {1, 3, 5}
Init ==
    /\ g = Gen0
    /\ \/ \E e \in Effs, sp \in Spans, t \in Tenors, cv \in Convs, tc \in TConvs, ru \in 1..3, eo \in BOOLEAN,
             f \in {0, 28}, l \in {0, 31} :
          c = [eff |-> e, term |-> e + sp, n |-> t[1], u |-> t[2], conv |-> cv, tconv |-> tc, rule |-> ru, eom |-> eo,
               first |-> IF f = 0 THEN 0 ELSE e + f, ntl |-> IF l = 0 THEN 0 ELSE e + sp - l, ev |-> e - 10]
       \/ \E e \in Effs, sp \in Spans, t \in Tenors, cv \in Convs, tc \in TConvs, ru \in 4..10, f \in {0, 40} :
          c = [eff |-> e, term |-> e + sp, n |-> t[1], u |-> t[2], conv |-> cv, tconv |-> tc, rule |-> ru, eom |-> FALSE,
               first |-> IF f = 0 THEN 0 ELSE Third(e + f), ntl |-> 0, ev |-> e - 10]
       \/ \E sp \in Spans, t \in Tenors, cv \in Convs, l \in {0, 31}, ev \in {Serial(28, 2, 2020), Serial(17, 1, 2021)} :
          c = [eff |-> 0, term |-> Serial(31, 1, 2021) + sp, n |-> t[1], u |-> t[2], conv |-> cv, tconv |-> cv, rule |-> 1,
               eom |-> FALSE, first |-> 0, ntl |-> IF l = 0 THEN 0 ELSE Serial(31, 1, 2021) + sp - l, ev |-> ev]
Next == ~Finished(g) /\ g' = GenStep(c, H, g) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Done == g.phase = "done"
IIncreasing == Done => Increasing(g.dates)
IFlags == Done => FlagsFit(g.dates, g.reg) /\ FlagsPlaced(c, g.reg)
IEnds == Done => EndsFit(c, H, g.dates)
IInner == Done => InnerBusiness(c, H, g.dates)
IGrid == Done => OnGrid(c, H, g.dates, MonthEnds(c, H, g))
ICovered == Done => GridCovered(c, H, g.dates, MonthEnds(c, H, g))
ITwentieth == Done => TwentiethFit(c, H, g.dates)
IWednesday == Done => WednesdayFit(c, H, g.dates)
(* merging is all that may refuse a well-formed request with explicit dates in order *)
ICuts == Done => LET s == [d |-> g.dates, r |-> g.reg]  n == Len(g.dates) IN
           \A t \in {g.dates[1] + 1, g.dates[(n + 1) \div 2], g.dates[n] - 1} :
              (t > g.dates[1] /\ t < g.dates[n]) =>
                 /\ Increasing(After(s, t).d) /\ Increasing(Until(s, t).d)
                 /\ FlagsFit(After(s, t).d, After(s, t).r) /\ FlagsFit(Until(s, t).d, Until(s, t).r)
                 /\ {After(s, t).d[j] : j \in DOMAIN After(s, t).d} \cup {Until(s, t).d[j] : j \in DOMAIN Until(s, t).d}
                       = {g.dates[j] : j \in DOMAIN g.dates} \cup {t}
                 /\ After(After(s, t), t) = After(s, t)
                 /\ Until(Until(s, t), t) = Until(s, t)
(* progress: each grid step consumes one tenor, so generation ends *)
Progress == [][g.phase = "grid" /\ g'.phase = "grid" => g'.k = g.k + 1]_vars
(* a request with a step-by-step refusal only when it is ill-formed, leaves the range or degenerates *)
OnlyShort == g.phase = "refused" /\ RequestOk(c) =>
               \/ c.term - EffOf(c) <= 12 \/ c.u = Days          \* ends met or overtook their neighbours
               \/ RuleOf(c) \in {ThirdWednesday, ThirdWednesdayInclusive}
               \/ (FirstOf(c) # 0 /\ NtlOf(c) # 0 /\ FirstOf(c) > NtlOf(c))
=============================================================================
