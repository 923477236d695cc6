--------------------------- MODULE MCParallelMap ---------------------------
EXTENDS ParallelMap, Json, IOUtils, CSV
CONSTANTS Kinds, MaxFaults
AllFaults == {f \in [Items -> Kinds \cup {"ok"}] : Cardinality({i \in Items : f[i] # "ok"}) <= MaxFaults}
Emit == ~Done' \/ CSVWrite("%1$s", <<ToJson(Schedule')>>, IOEnv.EDGES)
=============================================================================
