------------------------------ MODULE Schedules -----------------------------
(* Generation of payment schedules: an explicit generator state that is moved *)
(* by GenStep through the phases                                              *)
(*    start -> grid (one tenor step at a time) -> close -> snap -> adjust     *)
(*          -> merge -> done          (or refused)                            *)
(* A request is a record                                                      *)
(*  c = [eff, term, n, u, conv, tconv, rule, eom, first, ntl, ev]             *)
(* where eff/first/ntl = 0 means "not given" and ev is the evaluation date.   *)
EXTENDS BusinessDays

Backward == 1  Forward == 2  Zero == 3  ThirdWednesday == 4  ThirdWednesdayInclusive == 5
Twentieth == 6 TwentiethIMM == 7 OldCDS == 8 CDS == 9 CDS2015 == 10
TwentiethRules == {Twentieth, TwentiethIMM, OldCDS, CDS, CDS2015}
QuarterRules == {TwentiethIMM, OldCDS, CDS, CDS2015}
CreditRules == {CDS, CDS2015}

AllowsEom(c) == c.u \in {Months, Years} /\ c.n >= 1
EomOn(c) == c.eom /\ AllowsEom(c)
RuleOf(c) == IF c.n = 0 THEN Zero ELSE c.rule
FirstOf(c) == IF c.first = c.eff THEN 0 ELSE c.first
NtlOf(c) == IF c.ntl = c.term THEN 0 ELSE c.ntl
(* a backward schedule may leave its start open *)
EffOf(c) ==
    IF c.eff # 0 THEN c.eff
    ELSE IF c.rule # Backward \/ c.first # 0 \/ c.ev >= c.term THEN Refused
    ELSE LET last == IF c.ntl # 0 THEN c.ntl ELSE c.term
                 years == IF last >= c.ev THEN (last - c.ev) \div 366 ELSE -((c.ev - last) \div 366)
         IN  AddPeriod(last, -(years + 1), Years)

Third(s) == LET v == Civil(s) IN NthWeekday(3, 4, v[2], v[3])
IsThirdWednesday(s) == Third(s) = s
IsQuarterMonth(s) == MonthOf(s) % 3 = 0
OnTwentieth(s, rule) == DayOf(s) = 20 /\ (rule \in QuarterRules => IsQuarterMonth(s))
RECURSIVE TwentiethFrom(_, _, _)
TwentiethFrom(s, rule, dir) == IF ~InRange(s) THEN Refused
                               ELSE IF OnTwentieth(s, rule) THEN s ELSE TwentiethFrom(s + dir, rule, dir)
(* nearest twentieth: jump to the 20th of a month, then by months *)
Twentieth20(s) == LET v == Civil(s) IN Serial(20, v[2], v[3])
RECURSIVE ByMonths(_, _, _)
ByMonths(t, rule, dir) == IF t = Refused \/ OnTwentieth(t, rule) THEN t
                          ELSE ByMonths(AddMonths(t, dir), rule, dir)
NextTwentieth(s, rule) == LET t == Twentieth20(s)
                          IN  ByMonths(IF t < s THEN AddMonths(t, 1) ELSE t, rule, 1)
PrevTwentieth(s, rule) == LET t == Twentieth20(s)
                          IN  ByMonths(IF t > s THEN AddMonths(t, -1) ELSE t, rule, -1)

(* a tenor step of the null calendar, keeping month ends when asked to *)
Step(c, seed, k) ==
    LET t == AddPeriod(seed, k * c.n, c.u)
    IN  IF t = Refused THEN Refused
        ELSE IF EomOn(c) /\ IsEndOfMonth(seed) THEN EndOfMonth(t) ELSE t

RequestOk(c) ==
    LET rule == RuleOf(c)
        eff == EffOf(c)
        f == FirstOf(c)
        l == NtlOf(c)
    IN  /\ eff # Refused /\ eff < c.term /\ c.n >= 0
        /\ (f # 0 => CASE rule \in {Backward, Forward} -> f > eff /\ f <= c.term
                       [] rule = ThirdWednesday -> IsThirdWednesday(f)
                       [] OTHER -> FALSE)
        /\ (l # 0 => CASE rule \in {Backward, Forward} -> l >= eff /\ l < c.term
                       [] rule = ThirdWednesday -> IsThirdWednesday(l)
                       [] OTHER -> FALSE)
        /\ (rule \notin {Backward, Forward, Zero} => ~EomOn(c))

Gen0 == [phase |-> "start", dates |-> <<>>, reg |-> <<>>, seed |-> 0, k |-> 1]
RefusedGen == [Gen0 EXCEPT !.phase = "refused"]

First(q) == q[1]
Last(q) == q[Len(q)]

Start(c, H(_)) ==
    LET rule == RuleOf(c)
        eff == EffOf(c)
        f == FirstOf(c)
        l == NtlOf(c)
    IN  IF ~RequestOk(c) THEN RefusedGen
        ELSE IF rule = Zero
             THEN [phase |-> "adjust", dates |-> <<eff, c.term>>, reg |-> <<TRUE>>, seed |-> 0, k |-> 1]
        ELSE IF rule = Backward
             THEN IF l = 0 THEN [phase |-> "grid", dates |-> <<c.term>>, reg |-> <<>>, seed |-> c.term, k |-> 1]
                  ELSE [phase |-> "grid", dates |-> <<l, c.term>>, reg |-> <<Step(c, c.term, -1) = l>>, seed |-> l, k |-> 1]
        ELSE LET prev == PrevTwentieth(eff, rule)
                 early == rule \in CreditRules /\ Adjust(H, prev, c.conv) > eff
                 d0 == IF rule \in CreditRules
                       THEN IF early THEN <<AddMonths(prev, -3), prev>> ELSE <<prev>>
                       ELSE <<eff>>
                 r0 == IF early THEN <<TRUE>> ELSE <<>>
                 nx0 == NextTwentieth(eff, rule)
                 nx == IF rule = OldCDS /\ nx0 - eff < 30 THEN NextTwentieth(nx0 + 1, rule) ELSE nx0
             IN  IF f # 0
                 THEN [phase |-> "grid", dates |-> Append(d0, f), reg |-> Append(r0, Step(c, Last(d0), 1) = f), seed |-> f, k |-> 1]
                 ELSE IF rule \in TwentiethRules /\ nx # eff
                 THEN [phase |-> "grid", dates |-> Append(d0, nx), reg |-> Append(r0, rule \in CreditRules), seed |-> nx, k |-> 1]
                 ELSE [phase |-> "grid", dates |-> d0, reg |-> r0, seed |-> Last(d0), k |-> 1]

(* one tenor step: either a new grid date is taken, or it collides with its    *)
(* neighbour after adjustment and is dropped, or the far end has been passed   *)
Grid(c, H(_), g) ==
    LET back == RuleOf(c) = Backward
        exit == IF back THEN (IF FirstOf(c) # 0 THEN FirstOf(c) ELSE EffOf(c))
                ELSE (IF NtlOf(c) # 0 THEN NtlOf(c) ELSE c.term)
        t == Step(c, g.seed, IF back THEN -g.k ELSE g.k)
    IN  IF t = Refused THEN RefusedGen
        ELSE IF (back /\ t < exit) \/ (~back /\ t > exit) THEN [g EXCEPT !.phase = "close"]
        ELSE IF back
             THEN IF Adjust(H, First(g.dates), c.conv) # Adjust(H, t, c.conv)
                  THEN [g EXCEPT !.dates = <<t>> \o @, !.reg = <<TRUE>> \o @, !.k = @ + 1]
                  ELSE [g EXCEPT !.k = @ + 1]
             ELSE IF Adjust(H, Last(g.dates), c.conv) # Adjust(H, t, c.conv)
                  THEN [g EXCEPT !.dates = Append(@, t), !.reg = Append(@, TRUE), !.k = @ + 1]
                  ELSE [g EXCEPT !.k = @ + 1]

(* the stub at the far end *)
Close(c, H(_), g) ==
    LET back == RuleOf(c) = Backward
        Pre(x, d) == IF Adjust(H, First(x.dates), c.conv) # Adjust(H, d, c.conv)
                     THEN [x EXCEPT !.dates = <<d>> \o @, !.reg = <<FALSE>> \o @] ELSE x
        Post(x, d) == IF Adjust(H, Last(x.dates), c.conv) # Adjust(H, d, c.conv)
                      THEN [x EXCEPT !.dates = Append(@, d), !.reg = Append(@, FALSE)] ELSE x
        g1 == IF back THEN (IF FirstOf(c) # 0 THEN Pre(g, FirstOf(c)) ELSE g)
              ELSE (IF NtlOf(c) # 0 THEN Post(g, NtlOf(c)) ELSE g)
        g2 == IF back THEN Pre(g1, EffOf(c))
              ELSE IF Adjust(H, Last(g1.dates), c.tconv) # Adjust(H, c.term, c.tconv)
                   THEN IF RuleOf(c) \in TwentiethRules
                        THEN [g1 EXCEPT !.dates = Append(@, NextTwentieth(c.term, RuleOf(c))), !.reg = Append(@, TRUE)]
                        ELSE [g1 EXCEPT !.dates = Append(@, c.term), !.reg = Append(@, FALSE)]
                   ELSE g1
    IN  [g2 EXCEPT !.phase = "snap"]

Snap(c, g) ==
    LET n == Len(g.dates) IN
    [g EXCEPT !.phase = "adjust",
              !.dates = CASE RuleOf(c) = ThirdWednesday ->
                                [j \in 1..n |-> IF j = 1 \/ j = n THEN @[j] ELSE Third(@[j])]
                          [] RuleOf(c) = ThirdWednesdayInclusive -> [j \in 1..n |-> Third(@[j])]
                          [] OTHER -> @]

MonthEnds(c, H(_), g) == EomOn(c) /\ RuleOf(c) \in {Backward, Forward} /\ AtMonthEnd(H, g.seed)

AdjustAll(c, H(_), g) ==
    LET n == Len(g.dates)
        rule == RuleOf(c)
        BizEnd(s) == LastBusinessOfMonth(H, s)
        inner(j) == IF MonthEnds(c, H, g)
                    THEN (IF c.conv = Unadjusted THEN EndOfMonth(g.dates[j]) ELSE BizEnd(g.dates[j]))
                    ELSE Adjust(H, g.dates[j], c.conv)
        d1 == IF c.tconv # Unadjusted THEN BizEnd(g.dates[1])
              ELSE IF rule = Backward THEN g.dates[1] ELSE EndOfMonth(g.dates[1])
        d2 == IF c.tconv # Unadjusted THEN BizEnd(g.dates[n])
              ELSE IF rule = Backward THEN EndOfMonth(g.dates[n]) ELSE g.dates[n]
        head == IF MonthEnds(c, H, g) THEN (IF d1 # d2 THEN d1 ELSE g.dates[1])
                ELSE IF rule = OldCDS THEN g.dates[1] ELSE Adjust(H, g.dates[1], c.conv)
        tail == IF MonthEnds(c, H, g) THEN (IF d1 # d2 THEN d2 ELSE g.dates[n])
                ELSE IF rule \in CreditRules THEN g.dates[n] ELSE Adjust(H, g.dates[n], c.tconv)
    IN  [g EXCEPT !.phase = "merge",
                  !.dates = [j \in 1..n |-> IF j = n THEN tail ELSE IF j = 1 THEN head ELSE inner(j)]]

Cut(q, j) == [k \in 1..(Len(q) - 1) |-> IF k < j THEN q[k] ELSE q[k + 1]]    \* drop position j
(* intervals left empty because both their dates moved to the same day *)
RECURSIVE DropEmpty(_, _)
DropEmpty(g, j) == IF j > Len(g.dates) THEN g
                   ELSE IF g.dates[j] = g.dates[j - 1]
                        THEN DropEmpty([g EXCEPT !.dates = Cut(@, j), !.reg = Cut(@, j - 1)], j)
                        ELSE DropEmpty(g, j + 1)
(* the ends win over neighbours they have met or overtaken *)
Merge(c, g) ==
    LET n == Len(g.dates)
        g1 == IF n >= 2 /\ g.dates[n - 1] >= g.dates[n]
              THEN LET same == g.dates[n - 1] = g.dates[n]
                       r == IF n >= 3 THEN [g.reg EXCEPT ![n - 2] = same] ELSE g.reg
                   IN  [g EXCEPT !.dates = Cut(@, n - 1), !.reg = Cut(r, n - 1)]
              ELSE g
        m == Len(g1.dates)
    IN  IF m < 2 THEN RefusedGen
        ELSE LET g2 == IF g1.dates[2] <= g1.dates[1]
                       THEN IF m = 2 THEN RefusedGen
                            ELSE [g1 EXCEPT !.dates = Cut(@, 2),
                                            !.reg = Cut([@ EXCEPT ![2] = (g1.dates[2] = g1.dates[1])], 1)]
                       ELSE g1
                 g3 == IF g2.phase = "refused" THEN g2 ELSE DropEmpty(g2, 2)
             IN IF g3.phase = "refused" \/ Len(g3.dates) < 2
                   \/ \E j \in 1..(Len(g3.dates) - 1) : g3.dates[j] >= g3.dates[j + 1]
                THEN RefusedGen ELSE [g3 EXCEPT !.phase = "done"]

GenStep(c, H(_), g) ==
    CASE g.phase = "start" -> Start(c, H)
      [] g.phase = "grid" -> Grid(c, H, g)
      [] g.phase = "close" -> Close(c, H, g)
      [] g.phase = "snap" -> Snap(c, g)
      [] g.phase = "adjust" -> AdjustAll(c, H, g)
      [] g.phase = "merge" -> Merge(c, g)
Finished(g) == g.phase \in {"done", "refused"}
RECURSIVE Run(_, _, _)
Run(c, H(_), g) == IF Finished(g) THEN g ELSE Run(c, H, GenStep(c, H, g))
Generate(c, H(_)) == Run(c, H, Gen0)

(* ---- what is required of a finished schedule (stated without the generator) *)
Increasing(ds) == \A j \in 1..(Len(ds) - 1) : ds[j] < ds[j + 1]
FlagsFit(ds, rs) == Len(rs) = Len(ds) - 1 /\ Len(ds) >= 2
(* the ends: the effective and termination dates, adjusted; or the last (business) day of their
   month under the end-of-month option; rules that move the ends are exempt *)
EndsFit(c, H(_), ds) ==
    LET e == EffOf(c)  t == c.term
        (* days that the convention moves to the same day as the end itself *)
        Near(d, cv) == {d} \cup {s \in (d - 8)..(d + 8) : InRange(s) /\ Adjust(H, s, cv) = Adjust(H, d, cv)}
        MonthEndsOf(S) == UNION {{LastBusinessOfMonth(H, s), EndOfMonth(s), s} : s \in S}
    IN
    /\ RuleOf(c) \in {Backward, Forward, Zero, ThirdWednesday} =>
         /\ ds[1] \in {Adjust(H, e, c.conv)} \cup (IF EomOn(c) THEN MonthEndsOf(Near(e, c.conv)) ELSE {})
         /\ Last(ds) \in {Adjust(H, t, c.tconv)} \cup (IF EomOn(c) THEN MonthEndsOf(Near(t, c.tconv)) ELSE {})
    /\ RuleOf(c) = OldCDS => ds[1] = e
InnerBusiness(c, H(_), ds) == c.conv # Unadjusted => \A j \in 2..(Len(ds) - 1) : ~H(ds[j])
(* irregular intervals only at the ends or beside an explicit date *)
FlagsPlaced(c, rs) ==
    LET n == Len(rs)
        lo == IF c.first # 0 THEN 2 ELSE 1
        hi == IF c.ntl # 0 THEN n - 1 ELSE n
    IN  \A j \in 1..n : ~rs[j] => j <= lo \/ j >= hi

(* the whole-tenor grid as a set, independent of the stepping (explicit ends  *)
(* included); unadjusted                                                       *)
GridSet(c) ==
    LET back == RuleOf(c) = Backward
        seed == IF back THEN (IF NtlOf(c) # 0 THEN NtlOf(c) ELSE c.term)
                ELSE (IF FirstOf(c) # 0 THEN FirstOf(c) ELSE EffOf(c))
        lo == IF back /\ FirstOf(c) # 0 THEN FirstOf(c) ELSE EffOf(c)
        hi == IF ~back /\ NtlOf(c) # 0 THEN NtlOf(c) ELSE c.term
        dir == IF back THEN -1 ELSE 1
        K == 1..((c.term - EffOf(c)) \div (IF c.u = Days THEN c.n ELSE IF c.u = Weeks THEN 7 * c.n
                                           ELSE IF c.u = Months THEN 28 * c.n ELSE 365 * c.n) + 2)
    IN  {s \in {Step(c, seed, dir * k) : k \in K} : s # Refused /\ s >= lo /\ s <= hi}
        \cup (IF FirstOf(c) # 0 THEN {FirstOf(c)} ELSE {}) \cup (IF NtlOf(c) # 0 THEN {NtlOf(c)} ELSE {})
OnGrid(c, H(_), ds, meends) ==
    RuleOf(c) \in {Backward, Forward} =>
       \A j \in 2..(Len(ds) - 1) : \E s \in GridSet(c) :
            ds[j] = (IF meends THEN (IF c.conv = Unadjusted THEN EndOfMonth(s) ELSE LastBusinessOfMonth(H, s))
                     ELSE Adjust(H, s, c.conv))
(* every grid date is represented, by itself or by the neighbour it met *)
GridCovered(c, H(_), ds, meends) ==
    RuleOf(c) \in {Backward, Forward} =>
       \A s \in GridSet(c) :
          LET a == IF meends THEN (IF c.conv = Unadjusted THEN EndOfMonth(s) ELSE LastBusinessOfMonth(H, s))
                   ELSE Adjust(H, s, c.conv)
          IN  s < EffOf(c) + 12 \/ s > c.term - 12      \* near the ends the ends may win
              \/ (FirstOf(c) # 0 /\ s > FirstOf(c) - 12 /\ s < FirstOf(c) + 12)
              \/ (NtlOf(c) # 0 /\ s > NtlOf(c) - 12 /\ s < NtlOf(c) + 12)
              \/ \E j \in DOMAIN ds : ds[j] = a
(* special rules, before adjustment *)
TwentiethFit(c, H(_), ds) ==
    (RuleOf(c) \in TwentiethRules /\ c.u \in {Months, Years} /\ (RuleOf(c) \in QuarterRules => (c.u = Years \/ c.n % 3 = 0)))
    => LET m == Len(ds)
           OnIt(d, cv) == \E s \in (d - 12)..(d + 12) : OnTwentieth(s, RuleOf(c)) /\ Adjust(H, s, cv) = d
       IN /\ \A j \in 2..(m - 1) : OnIt(ds[j], c.conv)
          /\ OnIt(ds[m], IF RuleOf(c) \in CreditRules THEN Unadjusted ELSE c.tconv)
          /\ (RuleOf(c) \in CreditRules => OnIt(ds[1], c.conv) /\ ds[1] <= EffOf(c))
          /\ (RuleOf(c) = OldCDS /\ m > 2 => ds[2] - ds[1] >= 28)
WednesdayFit(c, H(_), ds) ==
    LET OnIt(d, cv) == \E s \in (d - 12)..(d + 12) : IsThirdWednesday(s) /\ Adjust(H, s, cv) = d
        m == Len(ds)
    IN  /\ (RuleOf(c) = ThirdWednesday => \A j \in 2..(m - 1) : OnIt(ds[j], c.conv))
        /\ (RuleOf(c) = ThirdWednesdayInclusive =>
              OnIt(ds[m], c.tconv) /\ \A j \in 1..(m - 1) : OnIt(ds[j], c.conv))

(* ---- truncation and search ------------------------------------------------- *)
(* a schedule as observed: [d |-> dates, r |-> flags]; "refused" = <<>> dates    *)
NoSchedule == [d |-> <<>>, r |-> <<>>]
After(s, t) ==
    LET n == Len(s.d) IN
    IF t >= s.d[n] THEN NoSchedule
    ELSE IF t <= s.d[1] THEN s
    ELSE LET keep == {j \in 1..n : s.d[j] > t}
             j0 == CHOOSE j \in keep : \A k \in keep : j <= k
         IN  [d |-> <<t>> \o SubSeq(s.d, j0, n),
              r |-> <<s.d[j0 - 1] = t /\ s.r[j0 - 1]>> \o SubSeq(s.r, j0, n - 1)]
Until(s, t) ==
    LET n == Len(s.d) IN
    IF t <= s.d[1] THEN NoSchedule
    ELSE IF t >= s.d[n] THEN s
    ELSE LET keep == {j \in 1..n : s.d[j] < t}
             j0 == CHOOSE j \in keep : \A k \in keep : j >= k
         IN  [d |-> SubSeq(s.d, 1, j0) \o <<t>>,
              r |-> SubSeq(s.r, 1, j0 - 1) \o <<s.d[j0 + 1] = t /\ s.r[j0]>>]
NullDate == MinSerial
NextDate(s, t) == LET c == {s.d[j] : j \in {j \in DOMAIN s.d : s.d[j] >= t}}
                  IN  IF c = {} THEN NullDate ELSE CHOOSE x \in c : \A y \in c : x <= y
PreviousDate(s, t) == LET c == {s.d[j] : j \in {j \in DOMAIN s.d : s.d[j] < t}}
                      IN  IF c = {} THEN NullDate ELSE CHOOSE x \in c : \A y \in c : x >= y
=============================================================================
