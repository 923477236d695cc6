----------------------------- MODULE MCEnsemble -----------------------------
EXTENDS Ensemble, Json, IOUtils, CSV, Randomization
Emit == Len(log') < Depth \/ CSVWrite("%1$s", <<ToJson(log')>>, IOEnv.EDGES)
View == <<models, data, fresh, Len(log)>>
(* all modes are explored by the theorems; generated histories draw a few   *)
SomeModes == RandomSubset(2, AllModes)
=============================================================================
