--------------------------- MODULE TraceRecords ----------------------------
(* Reading recorded executions of the implementation.  The trace file holds  *)
(* one JSON object per line; VARIABLE i is the line being judged.  The lines *)
(* are cut into shards so that TLC's workers judge them in parallel.  A      *)
(* module using this one defines Bad(r): the set of names of the clauses of  *)
(* the specification that line r violates.                                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NLines == Len(Trace)
Shard == IF NLines < 64 THEN 1 ELSE NLines \div 64
VARIABLE i
RInit == i = 0
RNext == \/ i = 0 /\ i' \in {k \in 1..NLines : k % Shard = 1 \/ Shard = 1}
         \/ i > 0 /\ i < NLines /\ (i + 1) % Shard # 1 /\ Shard # 1 /\ i' = i + 1
RSpec == RInit /\ [][RNext]_i
Report(bad) == bad = {} \/ PrintT("BAD|" \o ToString(i) \o "|" \o ToString(bad))
=============================================================================
