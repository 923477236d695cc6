--------------------------- MODULE LovecatTrace ---------------------------
(* CrossCatTrace with the requests of Lovecat.tla.                           *)
EXTENDS Lovecat, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.QIN)
StepVerdict(t, coh, i) ==
  LET s == t.steps[i] IN
  IF s.o.op = "init" THEN VerdictInit(s.o, s.ok, t.states[s.post], coh[s.post])
  ELSE LoveVerdict(t.states[s.pre], coh[s.pre], s.o, s.ok, t.states[s.post], coh[s.post])
Answer(t) ==
  LET coh == TLCEval([i \in 1..Len(t.states) |->
               IF t.states[i] = <<>> THEN {} ELSE Coherent(t.states[i])])
  IN [i \in 1..Len(t.steps) |-> SetSeq(StepVerdict(t, coh, i))]
ASSUME ndJsonSerialize(IOEnv.QOUT, [i \in 1..Len(Traces) |-> Answer(Traces[i])])
=============================================================================
