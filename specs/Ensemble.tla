------------------------------ MODULE Ensemble ------------------------------
(* An Engine: an ordered ensemble of models over one dataset.               *)
(* A model is <<id, history>>: the id it was created under and the requests *)
(* applied to it since.  A request names the models it addresses by their   *)
(* positions ("statenos"): <<>> addresses none; All addresses every model   *)
(* in order.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS M0,        \* models at the start
          MaxModels,
          Depth      \* length of a history
VARIABLES models, data, fresh, log
vars == <<models, data, fresh, log>>

Range(s) == {s[i] : i \in 1..Len(s)}
Len0 == Len(models)
AllNos == [i \in 1..Len0 |-> i]
RECURSIVE SeqsOf(_, _)
SeqsOf(S, n) == IF n = 0 THEN {<<>>}
                ELSE {<<>>} \cup UNION {{<<x>> \o t : t \in SeqsOf(S, n - 1)} : x \in S}
(* the addressing modes: nothing given, or a sequence of positions in any   *)
(* order and with repetitions                                               *)
AllModes == {<<"all", AllNos>>} \cup {<<"list", s>> : s \in SeqsOf(1..Len0, 3)}
Modes == AllModes

(* ---- what a request means, model by model -------------------------------- *)
Apply(m, k) == <<m[1], Append(m[2], k)>>
Answers(ms, nos) == [i \in 1..Len(nos) |-> ms[nos[i]]]      \* one answer per position
Update(ms, nos, k) == [i \in 1..Len(ms) |-> IF i \in Range(nos) THEN Apply(ms[i], k) ELSE ms[i]]
Remove(ms, i) == SubSeq(ms, 1, i - 1) \o SubSeq(ms, i + 1, Len(ms))

Entry(op, mode, nos, answers) ==
  [op |-> op, mode |-> mode, nos |-> nos, answers |-> answers, models |-> models', data |-> data']
Step == Len(log) + 1

Query == \E m \in Modes, kind \in {"query", "draw"} :
  /\ UNCHANGED <<models, data, fresh>>
  /\ log' = Append(log, Entry(kind, m[1], m[2], Answers(models, m[2])))
Change == \E m \in Modes :
  /\ models' = Update(models, m[2], Step)
  /\ UNCHANGED <<data, fresh>>
  /\ log' = Append(log, Entry("update", m[1], m[2], <<>>))
Data ==
  /\ models' = Update(models, AllNos, Step) /\ data' = Append(data, Step)
  /\ UNCHANGED fresh
  /\ log' = Append(log, Entry("data", "all", AllNos, <<>>))
Refused == \E kind \in {"bad-data", "bad-query", "bad-update"} :
  /\ UNCHANGED <<models, data, fresh>>
  /\ log' = Append(log, Entry(kind, "all", AllNos, <<>>))
Drop == \E i \in 1..Len0 :
  /\ Len0 > 1 /\ models' = Remove(models, i)
  /\ UNCHANGED <<data, fresh>>
  /\ log' = Append(log, Entry("drop", "list", <<i>>, <<>>))
Add == \E k \in 1..2 :
  /\ Len0 + k <= MaxModels
  /\ models' = models \o [i \in 1..k |-> <<fresh + i - 1, <<>>>>]
  /\ fresh' = fresh + k /\ UNCHANGED data
  /\ log' = Append(log, Entry("add", "list", [i \in 1..k |-> Len0 + i], <<>>))
Reload ==
  /\ UNCHANGED <<models, data, fresh>>
  /\ log' = Append(log, Entry("reload", "all", AllNos, <<>>))

Init == /\ models = [i \in 1..M0 |-> <<i, <<>>>>] /\ data = <<>> /\ fresh = M0 + 1 /\ log = <<>>
Next == Len(log) < Depth /\ (Query \/ Change \/ Data \/ Refused \/ Drop \/ Add \/ Reload)
Spec == Init /\ [][Next]_vars

(* ---- how an engine carries a request out ---------------------------------- *)
(* Arguments are built in the order of the positions, results come back in  *)
(* the order of the arguments (ParallelMap) and are stored one by one.      *)
RECURSIVE Store(_, _, _)
Store(ms, nos, rs) == IF nos = <<>> THEN ms
  ELSE Store([ms EXCEPT ![Head(nos)] = Head(rs)], Tail(nos), Tail(rs))
Mapped(ms, nos, k) == [i \in 1..Len(nos) |-> Apply(ms[nos[i]], k)]
RECURSIVE InPlace(_, _, _)   \* the serial way: one model after the other
InPlace(ms, nos, k) == IF nos = <<>> THEN ms
  ELSE InPlace([ms EXCEPT ![Head(nos)] = Apply(@, k)], Tail(nos), k)
Dedup(nos) == LET R == Range(nos) IN
  CHOOSE s \in [1..Cardinality(R) -> R] : \A i, j \in 1..Cardinality(R) : i < j => s[i] < s[j]

(* ---- properties ------------------------------------------------------------ *)
Ids(ms) == [i \in 1..Len(ms) |-> ms[i][1]]
Increasing(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
OrderKept   == Increasing(Ids(models))          \* hence also: no model twice
Shared      == \A i \in 1..Len0 : \A k \in Range(data) :
                 models[i][1] <= M0 => k \in Range(models[i][2])
Once        == \A i \in 1..Len0 : Increasing(models[i][2])
ParallelOK  == \A m \in Modes : Store(models, m[2], Mapped(models, m[2], Step)) = Update(models, m[2], Step)
SerialOK    == \A m \in Modes : InPlace(models, Dedup(m[2]), Step) = Update(models, m[2], Step)
OthersKept  == [][\A i \in 1..Len0 : \A j \in 1..Len(models') :
                 models'[j][1] = models[i][1] =>
                   \/ models'[j] = models[i]
                   \/ models'[j] = Apply(models[i], Step)]_vars
AnswersKeep == [][log' # log /\ log'[Len(log')].answers # <<>> => models' = models]_vars
=============================================================================
