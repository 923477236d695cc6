------------------------------ MODULE Streams ------------------------------
(* Where random numbers come from, as far as it can be observed.            *)
(*                                                                          *)
(* A process holds several models and two process-wide generators.  A model *)
(* is built from arguments and a seed (its key).  The log of a process is a *)
(* sequence of events:                                                      *)
(*   op = 1  a request to model m (the first one builds it): what was asked *)
(*           (req), everything answered and everything the model then says  *)
(*           about itself (ans), the process-wide generators before and     *)
(*           after (g0, g1), and the continuous draws handed out (fresh);   *)
(*   op = 0  somebody else reseeds or uses the process-wide generators.     *)
(* The three clauses below say all that a user can hold against a log.      *)
EXTENDS Integers, Sequences, FiniteSets

Mine(log, i) == SelectSeq(SubSeq(log, 1, i), LAMBDA e : e.op = 1 /\ e.m = log[i].m)
Asked(log, i) == LET s == Mine(log, i) IN [k \in 1..Len(s) |-> s[k].req]
Ops(log) == {i \in 1..Len(log) : log[i].op = 1}

(* An answer is a function of the key and of the model's own history.       *)
SameAt(log, asked, i) ==
  \A j \in Ops(log) : (j < i /\ log[j].key = log[i].key /\ asked[j] = asked[i]) => log[j].ans = log[i].ans
(* No request moves or resets the process-wide generators.                  *)
UntouchedAt(log, i) == log[i].g0 = log[i].g1
(* No draw is handed out twice by a model, or by models of different keys.  *)
Distinct(s) == \A a, b \in 1..Len(s) : a # b => s[a] # s[b]
Items(s) == {s[k] : k \in 1..Len(s)}
FreshAt(log, i) ==
  /\ Distinct(log[i].fresh)
  /\ \A j \in Ops(log) :
       (j < i /\ (log[j].m = log[i].m \/ log[j].key # log[i].key)) => Items(log[j].fresh) \cap Items(log[i].fresh) = {}

Broken(log) ==
  LET asked == [i \in Ops(log) |-> Asked(log, i)] IN
  [i \in 1..Len(log) |->
     IF log[i].op = 0 THEN {}
     ELSE (IF SameAt(log, asked, i) THEN {} ELSE {"same"})
            \cup (IF UntouchedAt(log, i) THEN {} ELSE {"untouched"})
            \cup (IF FreshAt(log, i) THEN {} ELSE {"fresh"})]

----------------------------------------------------------------------------
(* Ways a program can hold its generators.  "own" is the promised one; each *)
(* of the others breaks a clause in some schedule (the cfgs of MCStreams    *)
(* have TLC find it), so the three clauses tell them apart.                 *)
CONSTANTS Design,       \* see Draw
          L             \* requests per model
Models == 1..3
Key(m) == IF m < 3 THEN 1 ELSE 2
(* the script of a key: TRUE is a request that draws *)
Draws(key, n) == (n + key) % 3 # 0
VARIABLES log, pos, glob, memo
vars == <<log, pos, glob, memo>>
Count(m) == Cardinality({i \in Ops(log) : log[i].m = m})
Stream(m) == CASE Design = "shared" -> 1
               [] Design = "equal-seeds" -> 1
               [] OTHER -> Key(m)
Holder(m) == IF Design = "shared" THEN 1 ELSE m
Number(m) == CASE Design = "global" -> 1000 + glob
               [] Design = "from-global" -> 100 * Stream(m) + pos[m] + 1000 * (IF pos[m] = 0 THEN glob ELSE memo[m])
               [] Design = "reseeds" -> 100 * Stream(m)
               [] OTHER -> 100 * Stream(m) + pos[Holder(m)]
Request(m) ==
  LET n == Count(m) IN
  /\ n < L
  /\ LET draws == Draws(Key(m), n)
         stale == Design = "remembers" /\ draws /\ memo[m] # 0
         x == IF stale THEN memo[m] ELSE Number(m)
         g1 == IF Design = "global" /\ draws THEN glob + 1
               ELSE IF Design = "resets" /\ draws THEN 0 ELSE glob
         e == [op |-> 1, m |-> m, key |-> Key(m), req |-> n, ans |-> IF draws THEN x ELSE -1,
               g0 |-> glob, g1 |-> g1, fresh |-> IF draws THEN <<x>> ELSE <<>>]
     IN /\ log' = Append(log, e)
        /\ glob' = g1
        /\ pos' = IF draws THEN [pos EXCEPT ![Holder(m)] = @ + 1] ELSE pos
        /\ memo' = IF ~draws THEN memo
                   ELSE IF Design = "from-global" /\ pos[m] = 0 THEN [memo EXCEPT ![m] = glob]
                   ELSE IF Design = "remembers" /\ memo[m] = 0 THEN [memo EXCEPT ![m] = x] ELSE memo
Disturb == /\ Cardinality({i \in 1..Len(log) : log[i].op = 0}) < 2
           /\ glob' = glob + 7
           /\ log' = Append(log, [op |-> 0, m |-> 0, key |-> 0, req |-> 0, ans |-> 0,
                                  g0 |-> glob, g1 |-> glob + 7, fresh |-> <<>>])
           /\ UNCHANGED <<pos, memo>>
Init == log = <<>> /\ pos = [m \in Models |-> 0] /\ glob = 3 /\ memo = [m \in Models |-> 0]
Next == Disturb \/ \E m \in Models : Request(m)
Spec == Init /\ [][Next]_vars
Last == Len(log) > 0 => Broken(log)[Len(log)] = {}
Same == Len(log) > 0 => "same" \notin Broken(log)[Len(log)]
Untouched == Len(log) > 0 => "untouched" \notin Broken(log)[Len(log)]
Fresh == Len(log) > 0 => "fresh" \notin Broken(log)[Len(log)]
Done == \A m \in Models : Count(m) = L
Order(s) == [i \in 1..Len(s) |-> s[i].m]
=============================================================================
