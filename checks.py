"""Which models and which recorded executions decide each property."""
def conf(cmd, module, **kw):
    return dict(cmd=cmd, module=module, **kw)
SCHED = dict(module="ScheduleModel", quick=dict(Size=1), thorough=dict(Size=2), min_states=50000)
PERIODS = dict(module="PeriodModel", quick=dict(K=14, N=60, Starts="{60, 36584, 36585, 40000}"),
               thorough=dict(K=40, N=400, Starts="{60, 29279, 36584, 36585, 36616, 40000, 40574}"), min_states=900)
IMM = dict(module="ImmModel", quick=dict(From=36000, To=40000), thorough=dict(From=400, To=103000), min_states=4000)
DAYS = dict(module="DayCountModel", quick=dict(Froms="{36526, 36570, 36584, 36585, 36586, 36951, 38000, 40237}", Span=500),
            thorough=dict(Froms="{%s}" % ", ".join(map(str, list(range(36500, 38100, 29)) + [36584, 36585, 36586, 73050, 73109])), Span=1250), min_states=4000)
FIXED = dict(module="FixedModel", quick=dict(N=4), thorough=dict(N=16), min_states=400)
INTERP = dict(module="InterpModel", quick=dict(L=4, Gap=2, M=2), thorough=dict(L=5, Gap=3, M=2), min_states=5000)
FLOWS = dict(module="CashFlowModel", quick=dict(Gaps="{0, 5}", Amounts="{21, 100}", Comps='{"simple", "compounded"}'),
             thorough=dict(Gaps="{0, 5, 12}", Amounts="{21, 100}", Comps='{"simple", "compounded", "continuous"}'), min_states=5000)
BONDS = dict(module="BondModel", quick=dict(Few="TRUE"), thorough=dict(Few="FALSE"), min_states=7000)
CHECKS = {
    "C01": dict(models=[dict(module="DateWalk", min_states=109573)],
                confs=[conf("dates", "DateRecords")]),
    "C02": dict(models=[dict(module="DateWalk", min_states=109573)],
                confs=[conf("moves", "DateRecords")]),
    "C03": dict(models=[], confs=[conf("nth", "DateRecords")]),
    "C04": dict(models=[dict(module="DateWalk", min_states=109573)], confs=[conf("easter", "DateRecords")]),
    "C05": dict(models=[], confs=[conf("calendars", "CalendarRecords", input="europe")]),
    "C06": dict(models=[], confs=[conf("calendars", "CalendarRecords", input="us")]),
    "C07": dict(models=[], confs=[conf("calendars", "CalendarRecords", input="other")]),
    "C08": dict(models=[dict(module="Overrides", consts=dict(D=4, BuiltIn=2), min_states=1000)],
                confs=[conf("overrides", "BusinessRecords",
                            gen=dict(module="OverridesGen", cfg="OverridesGen.cfg", consts=dict(D=3, BuiltIn=2),
                                     quick=dict(L=3), thorough=dict(L=4), min=700))]),
    "C09": dict(models=[dict(module="AdjustModel", quick=dict(N=7, Origins=3), thorough=dict(N=10, Origins=3), min_states=1000)],
                confs=[conf("adjust", "BusinessRecords")]),
    "C10": dict(models=[dict(module="AdjustModel", quick=dict(N=7, Origins=3), thorough=dict(N=9, Origins=3), min_states=1000)],
                confs=[conf("advance", "BusinessRecords")]),
    "C11": dict(models=[dict(module="AdjustModel", quick=dict(N=7, Origins=3), thorough=dict(N=9, Origins=3), min_states=1000)],
                confs=[conf("lists", "BusinessRecords")]),
    "C12": dict(models=[PERIODS], confs=[conf("period-arithmetic", "PeriodRecords")]),
    "C13": dict(models=[PERIODS], confs=[conf("period-order", "PeriodRecords")]),
    "C14": dict(models=[PERIODS], confs=[conf("frequencies", "PeriodRecords")]),
    "C15": dict(models=[SCHED], confs=[conf("schedules", "ScheduleRecords", input="shape-all")]),
    "C16": dict(models=[SCHED], confs=[conf("schedules", "ScheduleRecords", input="exact-basic")]),
    "C17": dict(models=[SCHED], confs=[conf("schedules", "ScheduleRecords", input="exact-special")]),
    "C18": dict(models=[SCHED], confs=[conf("cuts", "ScheduleRecords")]),
    "C19": dict(models=[], confs=[conf("builder", "ScheduleRecords",
                    gen=dict(module="BuilderGen", cfg="BuilderGen.cfg", quick=dict(L=2), thorough=dict(L=4), min=300))]),
    "C20": dict(models=[IMM], confs=[conf("imm", "ImmRecords")]),
    "C21": dict(models=[IMM], confs=[conf("cds", "ImmRecords")]),
    "C22": dict(models=[DAYS], confs=[conf("thirty", "DayCountRecords")]),
    "C23": dict(models=[DAYS], confs=[conf("actual", "DayCountRecords")]),
    "C24": dict(models=[DAYS], confs=[conf("actact", "DayCountRecords")]),
    "C25": dict(models=[DAYS], confs=[conf("isma", "DayCountRecords")]),
    "C26": dict(models=[dict(module="LegModel", quick=dict(Few="TRUE"), thorough=dict(Few="FALSE"), min_states=200000)],
                confs=[conf("legs", "LegRecords", gen=dict(module="LegGen", cfg="LegGen.cfg", quick=dict(L=2), thorough=dict(L=3), min=500))]),
    "C27": dict(models=[dict(module="CouponModel", quick=dict(Starts="{43860, 43890}", Lengths="{31, 60, 182}"),
                        thorough=dict(Starts="{43860, 43873, 43888, 43889, 43890, 43910}", Lengths="{20, 28, 31, 60, 91, 182, 366}"), min_states=50000)],
                confs=[conf("coupons", "CouponRecords")]),
    "C28": dict(models=[FLOWS], confs=[conf("queries", "FlowRecords")]),
    "C29": dict(models=[BONDS], confs=[conf("bonds", "BondRecords")]),
    "C30": dict(models=[FLOWS], confs=[conf("present-values", "FlowRecords"), conf("prices", "BondRecords")]),
    "C31": dict(models=[FLOWS], confs=[conf("yields", "FlowRecords"), conf("bond-yields", "BondRecords")]),
    "C32": dict(models=[FIXED, dict(module="RateModel", quick=dict(R=12, Months=30), thorough=dict(R=30, Months=150), min_states=700)],
                confs=[conf("rates", "RateRecords")]),
    "C33": dict(models=[dict(module="SolverModel", quick=dict(N=6, Acc=1, Limit=7), thorough=dict(N=8, Acc=2, Limit=8), min_states=10000)],
                confs=[conf("solvers", "SolverRecords")]),
    "C34": dict(models=[INTERP], confs=[conf("linear", "InterpRecords")]),
    "C35": dict(models=[INTERP], confs=[conf("lagrange", "InterpRecords")]),
    "C36": dict(models=[dict(module="RoundModel", quick=dict(N=700), thorough=dict(N=20000), min_states=10000)],
                confs=[conf("rounding", "NumberRecords")]),
    "C37": dict(models=[], confs=[conf("bounds", "NumberRecords",
                    gen=dict(module="SortedGen", cfg="SortedGen.cfg", quick=dict(Top=4, L=6), thorough=dict(Top=5, L=9), min=400))]),
    "C38": dict(models=[dict(module="ArrayModel", quick=dict(M=2, L=3), thorough=dict(M=2, L=4), min_states=10000)],
                confs=[conf("arrays", "NumberRecords")]),
    "C39": dict(models=[dict(module="CloseModel", quick=dict(U=9, Ns="{1, 2, 3, 4, 5}"), thorough=dict(U=40, Ns="{1, 2, 3, 4, 5, 8, 13, 20}"), min_states=5000)],
                confs=[conf("closeness", "NumberRecords")]),
    "C40": dict(models=[dict(module="QuoteModel", quick=dict(L=4, Values="{1, 2}"), thorough=dict(L=6, Values="{1, 2, 3}"), min_states=500)],
                confs=[conf("currencies", "CurrencyRecords")]),
    "C41": dict(models=[], confs=[conf("counters", "TextRecords")]),
    "C42": dict(models=[dict(module="TextModel", quick=dict(From=36000, To=39999), thorough=dict(From=2, To=109574), min_states=4000)],
                confs=[conf("texts", "TextRecords")]),
    "C43": dict(models=[FIXED], confs=[conf("curves", "CurveRecords")]),
}
