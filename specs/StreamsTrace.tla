---------------------------- MODULE StreamsTrace ----------------------------
(* Judges logs of the real process: every line of IOEnv.QIN is one log; the *)
(* answer lists the clauses of Streams.tla every event breaks.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils
S == INSTANCE Streams WITH Design <- "own", L <- 0, log <- <<>>, pos <- <<>>, glob <- 0, memo <- <<>>
Logs == ndJsonDeserialize(IOEnv.QIN)
Answer(t) == LET b == S!Broken(t) IN [i \in 1..Len(t) |-> SetToSeq(b[i])]
ASSUME ndJsonSerialize(IOEnv.QOUT, [i \in 1..Len(Logs) |-> Answer(Logs[i])])
=============================================================================
