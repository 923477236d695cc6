----------------------------- MODULE OracleHelpers -----------------------------
(* What Helpers.tla says to a batch of questions.                              *)
EXTENDS Helpers, Weighted, Json, IOUtils
Queries == ndJsonDeserialize(IOEnv.QIN)
Bool(b) == IF b THEN 1 ELSE 0
Reply(q) ==
  CASE q.k = "con" ->
         LET ok == ValidInput(q.n, q.con)
             plain == Len(q.con.ci) + Len(q.con.rd) + Len(q.con.ri) = 0 IN
         [dep |-> Bool(ValidDep(q.n, q.con.cd, q.con.ci)), input |-> Bool(ok),
          pairs |-> [i \in 1..Len(q.pairs) |-> Bool(Compatible(q.con, q.pairs[i][1], q.pairs[i][2]))],
          part |-> IF ~ValidDep(q.n, q.con.cd, q.con.ci) THEN <<>>
                   ELSE [i \in 1..Len(q.zs) |-> Bool(ValidPartition(q.zs[i], q.con))],
          seat |-> IF ok THEN SeatLaw(q.n, q.con, q.a) ELSE <<>>,
          block |-> IF ok /\ plain THEN BlockLaw(q.n, q.con.cd, q.a) ELSE <<>>,
          blockp |-> IF ok /\ plain THEN [i \in 1..Len(q.zs) |-> BlockProb(q.zs[i], q.con.cd, q.a)] ELSE <<>>]
    [] q.k = "crp" ->
         [p |-> CrpProb(q.z, q.a), ratio |-> Div(SizesUnorm(Len(q.z), Cardinality(Tables(q.z)), q.a),
                                                 SizesUnorm(Len(q.z), Cardinality(Tables(q.z)), q.b)),
          fresh |-> Fresh(SizesOf(q.z), q.a, q.m),
          tables |-> [i \in 1..Len(q.who) |-> GibbsTables(q.z, q.who[i], q.m)],
          gibbs |-> [i \in 1..Len(q.who) |-> GibbsWeights(q.z, q.who[i], q.a, q.m)]]
    [] q.k = "log" ->
         [total |-> Total(q.xs), mean |-> Mean(q.xs),
          shares |-> IF Proper(q.xs) THEN Shares(q.xs) ELSE <<>>,
          weighted |-> IF Len(q.ws) = Len(q.xs) /\ Proper(q.ws) /\ Proper(q.xs) THEN WeightedMean(q.xs, q.ws) ELSE Zero]
    [] q.k = "choose" -> [p |-> Choose(q.n, q.r)]
    [] q.k = "spaced" -> [x |-> Spaced(q.a, q.b, q.n)]
    [] q.k = "dummy" -> [valid |-> Bool(DummyValid(q.x, q.ks)),
                         x |-> IF DummyValid(q.x, q.ks) THEN Dummy(q.x, q.ks) ELSE <<>>]
    [] q.k = "split" -> [query |-> Split(q.z, q.query), evidence |-> Split(q.z, q.evidence)]
    [] q.k = "blocks" -> [rows |-> RowBlocks(q.a)]
    [] q.k = "merge" -> [d |-> Merge(q.ds)]
    [] q.k = "schema" -> [valid |-> [i \in 1..Len(q.cols) |-> Bool(SchemaValid(q.cols[i]))],
                          x |-> [i \in 1..Len(q.cols) |-> Coded(q.cols[i])],
                          kk |-> [i \in 1..Len(q.cols) |-> SchemaK(q.cols[i])],
                          levels |-> [i \in 1..Len(q.cols) |-> Levels(q.cols[i].x)]]
    [] q.k = "types" -> [types |-> Types, loom |-> [i \in 1..Len(q.ks) |-> Loom("categorical", q.ks[i])]]
    [] q.k = "weighted" ->
         LET ws == [i \in 1..q.n |-> <<"s", "w", i>>]  ps == [i \in 1..q.n |-> <<"s", "p", i>>] IN
         [mean |-> IF q.plain THEN PlainMean(ps) ELSE EnsembleMean(ps, ws),
          shares |-> [i \in 1..q.n |-> IF q.plain THEN Q(1, q.n) ELSE Share(ws, i)],
          counts |-> CountLaw(q.rows, IF q.plain THEN [i \in 1..q.n |-> One] ELSE ws),
          marked |-> [i \in 1..Len(q.marked) |-> Marked(q.marked[i][1], q.marked[i][2], q.marked[i][3])]]
    [] q.k = "cells" -> [law |-> CellLaw(q.w)]
ASSUME ndJsonSerialize(IOEnv.QOUT, [i \in 1..Len(Queries) |-> Reply(Queries[i])])
=============================================================================
