----------------------------- MODULE FlowRecords ----------------------------
(* Judges queries about legs (C28), present values (C30) and yields (C31).      *)
EXTENDS FlowJudges, TraceRecords
Bad(r) == CASE r.k = "queries" -> BadQueries(r)
            [] r.k = "pv" -> BadPv(r)
            [] r.k = "yield" -> BadYield(r)
            [] OTHER -> {"unknown record kind"}
Conforms == i = 0 \/ Report(Bad(Trace[i]))
=============================================================================
