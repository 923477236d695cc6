---------------------------- MODULE OracleExternal ----------------------------
(* What External.tla says to a batch of histories of operations and queries. *)
EXTENDS External, Json, IOUtils
Queries == ndJsonDeserialize(IOEnv.QIN)
Reply(q) ==
  CASE q.k = "history" -> [a |-> Play(q.g, Fresh, q.ops)]
    [] q.k = "cond" -> [law |-> CASE q.f = "sin" -> <<[w |-> One, comps |-> <<SinLaw(q.n, q.h)>>]>>
                                  [] q.f = "parabola" -> ParabolaLaw(q.x, q.h)
                                  [] q.f = "diamond" -> DiamondLaw(q.x, q.h)]
    [] q.k = "mvn" ->          \* integer matrix, point x, split of the coordinates
         LET mu == Terms(q.mu)  S == [i \in 1..Len(q.s) |-> [j \in 1..Len(q.s) |-> Q(q.s[i][j], q.d)]]
             B == Basis(q.s, q.e, <<>>)  at(R) == [i \in 1..Len(R) |-> I(q.x[R[i]])]
             all == q.t \o q.e  regular == Len(B) = Len(q.e)
         IN [regular |-> regular, m |-> MvnMean(mu, S, q.t, B, at(B)), c |-> MvnCov(mu, S, q.t, B),
             p |-> IF Det(Block(q.s, q.t, q.t)) # 0 THEN MvnDensity(mu, S, q.t, at(q.t)) ELSE Zero,
             full |-> Det(Block(q.s, all, all)) # 0,
             given |-> IF Det(Block(q.s, all, all)) # 0 THEN MvnGiven(mu, S, q.t, at(q.t), q.e, at(q.e)) ELSE Zero,
             grad |-> IF Det(Block(q.s, q.t, q.t)) # 0
                      THEN MvnGradient(Picked(mu, q.t), Block(S, q.t, q.t), at(q.t)) ELSE [x |-> <<>>]]
ASSUME ndJsonSerialize(IOEnv.QOUT, [i \in 1..Len(Queries) |-> Reply(Queries[i])])
=============================================================================
