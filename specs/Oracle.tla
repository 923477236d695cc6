------------------------------- MODULE Oracle -------------------------------
(* Answers a batch of questions (ndjson, IOEnv.QIN) with what the          *)
(* specification says the result is (ndjson, IOEnv.QOUT).                  *)
EXTENDS NetQuery, Json, IOUtils

Queries == ndJsonDeserialize(IOEnv.QIN)

Bool(b) == IF b THEN 1 ELSE 0

(* xs after a history of <<"+", code>> / <<"-", position>> steps is given   *)
(* by the driver as the surviving codes; Predictives at several points.     *)
Answer(q) ==
  CASE q.k = "component" ->
         [score |-> Score(q.col, 0, q.xs), stats |-> Stats(q.col, q.xs),
          pred  |-> [i \in 1..Len(q.at) |-> Pred(q.col, 0, q.xs, q.at[i])],
          chain |-> [i \in 1..Len(q.xs) |-> Pred(q.col, 0, SubSeq(q.xs, 1, i-1), q.xs[i])]]
    [] q.k = "density" -> [pdf |-> PredAt(q.col, 0, q.xs, <<"s", "y">>)]
    [] q.k = "pmf" -> [pmf |-> [i \in 1..Len(q.at) |-> Pred(q.col, 0, q.xs, q.at[i])]]
    [] q.k = "support" -> [ok |-> [i \in 1..Len(q.at) |-> InSupport(q.col, q.at[i][1], q.at[i][2])]]
    [] q.k = "posterior" -> [pdf |-> Score(q.col, 0, q.xs)]
    [] q.k = "logpdf" -> [p |-> RowDensity(q.m, q.t, q.c)]
    [] q.k = "logpdf_obs" -> [p |-> ObservedDensity(q.m, q.r, q.t)]
    [] q.k = "logpdf_view" -> [p |-> ViewDensity(q.m, View(q.m, q.v), q.t, q.c)]
    [] q.k = "logpdf_view_z" -> [p |-> ViewDensityJointZ(q.m, View(q.m, q.v), q.t, q.c, q.z)]
    [] q.k = "logpdf_view_gz" -> [p |-> ViewDensityGivenZ(q.m, View(q.m, q.v), q.t, q.z)]
    [] q.k = "score" ->
         [score |-> ModelScore(q.m, q.cd), lik |-> Likelihood(q.m), crp |-> ColumnPrior(q.m, q.cd),
          views |-> [i \in 1..Len(q.m.views) |->
             <<q.m.views[i].id, ViewScore(q.m, q.m.views[i]),
               CrpScore(q.m.views[i].alpha, SizesOf(q.m.views[i])),
               ViewLikelihood(q.m, q.m.views[i])>>],
          dims |-> [i \in 1..Len(q.m.cols) |->
             <<q.m.cols[i].id, ColScoreUnder(q.m.cols[i], ViewOf(q.m, q.m.cols[i].id).z)>>]]
    [] q.k = "law" -> [law |-> RowLaw(q.m, q.t, q.c)]
    [] q.k = "law_obs" -> [law |-> ObservedLaw(q.m, q.r, q.t)]
    [] q.k = "law_view" -> [law |-> <<ViewLaw(q.m, View(q.m, q.v), q.t, q.c)>>]
    [] q.k = "law_view_gz" -> [law |-> <<ViewLawAt(q.m, View(q.m, q.v), q.t, q.z)>>]
    [] q.k = "jointscore" -> [score |-> JointScore(q.m, q.grid)]
    [] q.k = "rowkernel" -> [w |-> RowKernel(q.m, View(q.m, q.v), q.r)]
    [] q.k = "colkernel" -> ColKernel(q.m, q.c, q.avoid, q.grid, q.aux)
    [] q.k = "colscore" -> [p |-> ColScoreUnder(Col(q.m, q.c), ViewOf(q.m, q.c).z)]
    [] q.k = "crpscore" -> [p |-> CrpScore(q.alpha, q.sizes)]
    [] q.k = "net_logpdf" -> QueryLogpdf(q.net, q.m, q.r, q.t, q.c, q.in, q.n)
    [] q.k = "net_simulate" -> QuerySimulate(q.net, q.m, q.r, q.t, q.c, q.in, q.n)
    [] q.k = "net_logpdf_size" -> SizeLogpdf(q.net, q.m, q.r, q.t, q.c, q.in)
    [] q.k = "net_simulate_size" -> SizeSimulate(q.net, q.m, q.r, q.t, q.c, q.in)
    [] q.k = "network" ->
         [valid |-> Bool(Valid(q.g)), single |-> Bool(SingleProducer(q.g)),
          ordered |-> [i \in 1..Len(q.orders) |-> Bool(Ordered(q.g, q.orders[i]))],
          parents |-> IF ~SingleProducer(q.g) THEN <<>> ELSE [i \in Nodes(q.g) |-> Sorted(ParentsOf(q.g, i))],
          produced |-> Sorted(Produced(q.g)), external |-> Sorted(External(q.g)),
          producer |-> IF ~SingleProducer(q.g) THEN <<>> ELSE
             LET P == Sorted(Produced(q.g)) IN [i \in 1..Len(P) |-> Producer(q.g, P[i])],
          component |-> IF ~SingleProducer(q.g) THEN <<>> ELSE [i \in Nodes(q.g) |-> Sorted(Component(q.g, i))],
          anc |-> IF ~Valid(q.g) THEN <<>> ELSE [i \in 1..Len(q.vars) |-> Sorted(Ancestors(q.g, q.vars[i]))],
          desc |-> IF ~Valid(q.g) THEN <<>> ELSE [i \in 1..Len(q.vars) |-> Sorted(Descendants(q.g, q.vars[i]))],
          needed |-> IF ~Valid(q.g) THEN <<>> ELSE
             [i \in 1..Len(q.asks) |-> Sorted(Needed(q.g, Range(q.asks[i][1]), Range(q.asks[i][2])))]]
    [] q.k = "summaries" ->
         [dep |-> [i \in 1..Len(q.pairs) |-> IF Dependent(q.m, q.hooked, q.pairs[i][1], q.pairs[i][2]) THEN 1 ELSE 0],
          sim |-> [i \in 1..Len(q.sims) |->
                     SimilarityCounts(q.m, q.sims[i][1], q.sims[i][2], Range(q.sims[i][3]))],
          rel |-> [i \in 1..Len(q.rels) |-> LET e == q.rels[i] IN
                     IF RelevantAll(q.m, e[1], e[2], Range(e[3])) THEN 1 ELSE 0],
          hyp |-> [i \in 1..Len(q.hyps) |-> LET e == q.hyps[i]  V == ViewOf(q.m, e[1]) IN
                     IF \A s \in Range(e[3]) : V.z[s] = V.z[e[2]] THEN AllJoin(q.m, V, V.z[e[2]], e[4]) ELSE Zero],
          prob |-> [i \in 1..Len(q.probs) |-> LET e == q.probs[i] IN
                     Relevance(q.m, View(q.m, e[1]), e[2], Range(e[3]))]]

ASSUME ndJsonSerialize(IOEnv.QOUT, [i \in 1..Len(Queries) |-> Answer(Queries[i])])
=============================================================================
