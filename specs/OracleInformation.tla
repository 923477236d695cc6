-------------------------- MODULE OracleInformation --------------------------
(* Answers a batch of questions about entropy and mutual information.        *)
EXTENDS Information, Json, IOUtils
Queries == ndJsonDeserialize(IOEnv.QIN)
Answer(q) ==
  CASE q.k = "information" -> Information(q.net, q.m, q.x, q.y, q.e, q.w)
    [] q.k = "entropy" -> [terms |-> EmpiricalH(q.s)]
    [] q.k = "cmi" -> [terms |-> EmpiricalCmi(q.s)]
ASSUME ndJsonSerialize(IOEnv.QOUT, [i \in 1..Len(Queries) |-> Answer(Queries[i])])
=============================================================================
