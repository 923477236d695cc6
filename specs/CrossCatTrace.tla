--------------------------- MODULE CrossCatTrace ---------------------------
(* Validates traces recorded from the real State: every line of IOEnv.QIN   *)
(* is one history [init, states, steps]; the answer lists, per step, the    *)
(* clauses of CrossCat.tla it breaks.                                       *)
EXTENDS CrossCat, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.QIN)
StepVerdict(t, coh, i) ==
  LET s == t.steps[i] IN
  IF s.o.op = "moves" THEN
    LET S == t.states[s.pre] IN
    {"C22:never moved: " \o x[1] : x \in NeverMoved(S, s.o, [j \in 1..Len(s.o.outcomes) |-> t.states[s.o.outcomes[j]]])}
  ELSE IF s.o.op = "init" THEN VerdictInit(s.o, s.ok, t.states[s.post], coh[s.post])
  ELSE Verdict(t.states[s.pre], coh[s.pre], s.o, s.ok, t.states[s.post], coh[s.post])
Answer(t) ==
  LET coh == TLCEval([i \in 1..Len(t.states) |->
               IF t.states[i] = <<>> THEN {} ELSE Coherent(t.states[i])])
  IN [i \in 1..Len(t.steps) |-> SetSeq(StepVerdict(t, coh, i))]
ASSUME ndJsonSerialize(IOEnv.QOUT, [i \in 1..Len(Traces) |-> Answer(Traces[i])])
=============================================================================
