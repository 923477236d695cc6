----------------------------- MODULE ParallelMap -----------------------------
(* parallel_map: a parent hands the indices 1..N to W workers one at a time *)
(* and collects (index, ok, value) from them.                               *)
(*   Fault[i]  what happens when item i is evaluated: "ok", "raise" (the    *)
(*   function raises), "unsendable" (the value cannot be sent back), "die"  *)
(*   (the worker process ends), "vanish" (the worker process ends while it  *)
(*   sends the value, after having announced it).                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, W, Faults       \* Faults: set of functions 1..N -> kind
VARIABLES fault,   \* the faults of this run
          st,      \* worker -> "idle" "busy" "told" "ended" "killed"
          item,    \* worker -> index it holds, 0 for none
          inq,     \* worker -> sequence of indices sent (0 = stop)
          outq,    \* worker -> sequence of <<index, ok>>
          retq,    \* workers that announced an output, in order
          next,    \* next index to hand out
          got,     \* set of indices whose value arrived
          evals,   \* index -> times evaluated
          parent,  \* "run" "stop" "fail" "returned" "raised"
          order    \* the indices in the order their evaluation ended
vars == <<fault, st, item, inq, outq, retq, next, got, evals, parent, order>>
Items == 1..N
Workers == 1..W
Alive(w) == st[w] \notin {"ended", "killed"}

Init ==
  /\ fault \in Faults
  /\ st = [w \in Workers |-> "idle"] /\ item = [w \in Workers |-> 0]
  /\ inq = [w \in Workers |-> IF w <= N THEN <<w>> ELSE <<>>]
  /\ outq = [w \in Workers |-> <<>>] /\ retq = <<>>
  /\ next = (IF N < W THEN N ELSE W) + 1
  /\ got = {} /\ evals = [i \in Items |-> 0] /\ parent = "run" /\ order = <<>>

(* ---- workers ------------------------------------------------------------ *)
Take(w) ==
  /\ st[w] = "idle" /\ inq[w] # <<>>
  /\ LET i == Head(inq[w]) IN
     /\ inq' = [inq EXCEPT ![w] = Tail(@)]
     /\ IF i = 0 THEN st' = [st EXCEPT ![w] = "ended"] /\ UNCHANGED <<item, evals>>
        ELSE /\ st' = [st EXCEPT ![w] = "busy"] /\ item' = [item EXCEPT ![w] = i]
             /\ evals' = [evals EXCEPT ![i] = @ + 1]
  /\ UNCHANGED <<fault, outq, retq, next, got, parent, order>>
Finish(w) ==      \* the evaluation ends
  /\ st[w] = "busy"
  /\ order' = Append(order, item[w])
  /\ IF fault[item[w]] = "die" THEN st' = [st EXCEPT ![w] = "ended"] /\ UNCHANGED retq
     ELSE st' = [st EXCEPT ![w] = "told"] /\ retq' = Append(retq, w)
  /\ UNCHANGED <<fault, item, inq, outq, next, got, evals, parent>>
Send(w) ==
  /\ st[w] = "told"
  /\ IF fault[item[w]] = "vanish" THEN st' = [st EXCEPT ![w] = "ended"] /\ UNCHANGED <<outq, item>>
     ELSE /\ outq' = [outq EXCEPT ![w] = Append(@, <<item[w], fault[item[w]] = "ok">>)]
          /\ st' = [st EXCEPT ![w] = "idle"] /\ item' = [item EXCEPT ![w] = 0]
  /\ UNCHANGED <<fault, inq, retq, next, got, evals, parent, order>>
(* ---- parent ------------------------------------------------------------- *)
Collect ==
  /\ parent = "run" /\ retq # <<>> /\ outq[Head(retq)] # <<>>
  /\ LET w == Head(retq)  m == Head(outq[w]) IN
     /\ retq' = Tail(retq) /\ outq' = [outq EXCEPT ![w] = Tail(@)]
     /\ IF ~m[2] THEN parent' = "fail" /\ UNCHANGED <<got, inq, next>>
        ELSE /\ got' = got \cup {m[1]}
             /\ IF next <= N THEN inq' = [inq EXCEPT ![w] = Append(@, next)] /\ next' = next + 1
                             ELSE UNCHANGED <<inq, next>>
             /\ parent' = "run"
  /\ UNCHANGED <<fault, st, item, evals, order>>
Lost ==           \* nothing to collect, and a worker is gone
  /\ parent = "run" /\ got # Items
  /\ \/ retq = <<>> /\ \E w \in Workers : ~Alive(w)
     \/ retq # <<>> /\ outq[Head(retq)] = <<>> /\ ~Alive(Head(retq))
  /\ parent' = "fail"
  /\ UNCHANGED <<fault, st, item, inq, outq, retq, next, got, evals, order>>
Stop ==
  /\ parent = "run" /\ got = Items
  /\ parent' = "stop" /\ inq' = [w \in Workers |-> Append(inq[w], 0)]
  /\ UNCHANGED <<fault, st, item, outq, retq, next, got, evals, order>>
Join ==
  /\ parent = "stop" /\ \A w \in Workers : ~Alive(w)
  /\ parent' = "returned"
  /\ UNCHANGED <<fault, st, item, inq, outq, retq, next, got, evals, order>>
Kill ==
  /\ parent = "fail"
  /\ st' = [w \in Workers |-> IF Alive(w) THEN "killed" ELSE st[w]]
  /\ parent' = "raised"
  /\ UNCHANGED <<fault, item, inq, outq, retq, next, got, evals, order>>
Worker == \E w \in Workers : Take(w) \/ Finish(w) \/ Send(w)
Parent == Collect \/ Lost \/ Stop \/ Join \/ Kill
Next == Worker \/ Parent
Spec == Init /\ [][Next]_vars
        /\ WF_vars(Parent) /\ \A w \in Workers : WF_vars(Take(w) \/ Finish(w) \/ Send(w))

(* ---- properties ---------------------------------------------------------- *)
Done == parent \in {"returned", "raised"}
Good == \A i \in Items : fault[i] = "ok"
ReturnsAll   == parent = "returned" => got = Items /\ \A i \in Items : evals[i] = 1
AtMostOnce   == \A i \in Items : evals[i] <= 1
RaisesOnly   == parent = "raised" => ~Good
NeverPartial == parent = "returned" => Good
NoneLeft     == Done => \A w \in Workers : ~Alive(w)
OrderSane    == \A w \in Workers : st[w] = "busy" => item[w] \in Items
Stuck        == ENABLED Next \/ Done
Terminates   == <>Done
Quiet        == Done

(* the schedules: which items end in which order, and the outcome           *)
Schedule == [fault |-> fault, order |-> order, outcome |-> parent,
             evals |-> evals]
=============================================================================
