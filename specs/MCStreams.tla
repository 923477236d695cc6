----------------------------- MODULE MCStreams -----------------------------
EXTENDS Streams, Json, IOUtils, CSV
Complete(s) == \A m \in Models : Cardinality({i \in 1..Len(s) : s[i].op = 1 /\ s[i].m = m}) = L
Emit == ~Complete(log') \/ CSVWrite("%1$s", <<ToJson(Order(log'))>>, IOEnv.EDGES)
=============================================================================
