----------------------------- MODULE Information -----------------------------
(* Entropy and (conditional) mutual information of the variables of a model  *)
(* with composed members (a net, see NetQuery.tla), as sums over the values   *)
(* of the variables of                                                        *)
(*     weight * log ratio                                                     *)
(* E: fixed conditions, an assignment.  Y, X, W: sequences of variables; W    *)
(* are the conditions that are averaged over given E.  Xs = Ys: entropy.      *)
EXTENDS NetQuery

(* ---- joint density of an assignment -------------------------------------- *)
JointP(net, M, q) ==
  IF q = <<>> THEN One
  ELSE LET P == Particles(net, M, 0, {}, q, <<>>) IN
       Sum([i \in 1..Len(P) |-> Times(P[i].p, P[i].w)])
(* the network answers q with one particle, so that its answer is exact       *)
Whole(net, vs) == Needed(GraphOf(net), {}, vs) = {}

(* ---- the values of variables: one of them may stay symbolic ---------------- *)
NodeOf(net, v) == net[CHOOSE i \in 1..Len(net) : v \in Range(net[i].outs)]
Finite(net, M, v) == NodeOf(net, v).kind = "cpt" \/ Col(M, v).type \in {"bernoulli", "categorical"}
ValuesAt(net, M, v) == IF Finite(net, M, v) THEN ValsOf(M, NodeOf(net, v), v) ELSE <<Sym>>
RECURSIVE Points(_, _, _)
Points(net, M, vs) ==
  IF vs = <<>> THEN <<<<>>>>
  ELSE LET R == Points(net, M, Tail(vs))  xs == ValuesAt(net, M, Head(vs)) IN
       [i \in 1..(Len(R) * Len(xs)) |->
          <<<<Head(vs), xs[((i - 1) % Len(xs)) + 1]>>>> \o R[((i - 1) \div Len(xs)) + 1]]

(* ---- the terms --------------------------------------------------------------- *)
(* log ratio: log p(x,y|e,w) / p(x|e,w) p(y|e,w)                                 *)
MiTerm(net, M, X, Y, E, W, a) ==
  LET w == Restrict(a, Range(W)) \o E
      x == Restrict(a, Range(X))  y == Restrict(a, Range(Y))
      j == JointP(net, M, a \o E)
  IN [w |-> Div(j, JointP(net, M, E)), v |-> a,
      num |-> Times(j, JointP(net, M, w)),
      den |-> Times(JointP(net, M, x \o w), JointP(net, M, y \o w))]
(* log ratio: log 1 / p(x|e,w)                                                   *)
HTerm(net, M, X, E, W, a) ==
  LET w == Restrict(a, Range(W)) \o E  j == JointP(net, M, a \o E)
  IN [w |-> Div(j, JointP(net, M, E)), v |-> a, num |-> JointP(net, M, w), den |-> j]
MiTerms(net, M, X, Y, E, W) ==
  LET A == Points(net, M, X \o Y \o W) IN [i \in 1..Len(A) |-> MiTerm(net, M, X, Y, E, W, A[i])]
HTerms(net, M, X, E, W) ==
  LET A == Points(net, M, X \o W) IN [i \in 1..Len(A) |-> HTerm(net, M, X, E, W, A[i])]

(* ---- what may be asked --------------------------------------------------------- *)
Entropy(X, Y) == Range(X) = Range(Y)
Admissible(net, X, Y, E, W) ==
  /\ Range(X) \cap Range(Y) # {} => Entropy(X, Y)
  /\ (Range(X) \cup Range(Y)) \cap (KeysOf(E) \cup Range(W)) = {}
  /\ KeysOf(E) \cup Range(X) \cup Range(Y) \cup Range(W) \subseteq Produced(GraphOf(net))
(* every density that the estimate needs is exact                                  *)
Exactly(net, X, Y, E, W) ==
  LET w == KeysOf(E) \cup Range(W) IN
  /\ Whole(net, KeysOf(E)) /\ Whole(net, w)
  /\ Whole(net, w \cup Range(X)) /\ Whole(net, w \cup Range(Y))
  /\ Whole(net, w \cup Range(X) \cup Range(Y))
(* Variables that cannot influence each other: in different components of the net.  *)
ComponentOf(net, v) == Component(GraphOf(net), Producer(GraphOf(net), v))
Unrelated(net, X, Y) == \A x \in Range(X), y \in Range(Y) :
  ComponentOf(net, x) # ComponentOf(net, y)

(* Components that hold variables of both X and Y contribute; those without a   *)
(* condition to average over are estimated at once.                             *)
Contributing(net, X, Y) ==
  {ComponentOf(net, x) : x \in Range(X)} \cap {ComponentOf(net, y) : y \in Range(Y)}
Averaged(net, W) == {ComponentOf(net, w) : w \in Range(W)}

Information(net, M, X, Y, E, W) ==
  IF ~Admissible(net, X, Y, E, W) THEN [ok |-> 0]
  ELSE IF ~Exactly(net, X, Y, E, W) THEN [ok |-> 2]
  ELSE [ok |-> 1, zero |-> IF Unrelated(net, X, Y) THEN 1 ELSE 0, e |-> JointP(net, M, E),
        outer |-> Cardinality(Contributing(net, X, Y) \cap Averaged(net, W)),
        inner |-> Cardinality(Contributing(net, X, Y) \ Averaged(net, W)),
        terms |-> IF Entropy(X, Y) THEN HTerms(net, M, X, E, W) ELSE MiTerms(net, M, X, Y, E, W)]

(* ---- empirical information of a list of samples ---------------------------------- *)
(* occurrences of each distinct sample                                                *)
Counts(s) == LET D == SetSeq(Range(s)) IN
  [i \in 1..Len(D) |-> Cardinality({j \in 1..Len(s) : s[j] = D[i]})]
EmpiricalH(s) == LET C == Counts(s) IN
  [i \in 1..Len(C) |-> [w |-> Q(C[i], Len(s)), num |-> I(Len(s)), den |-> I(C[i])]]
(* I(x; y | z) over the distinct <<x, y, z>>                                          *)
Where(s, js, a) == Cardinality({i \in 1..Len(s) : \A j \in js : s[i][j] = a[j]})
EmpiricalCmi(s) == LET D == SetSeq(Range(s)) IN
  [i \in 1..Len(D) |-> LET a == D[i] IN
     [w |-> Q(Where(s, {1, 2, 3}, a), Len(s)),
      num |-> Times(I(Where(s, {1, 2, 3}, a)), I(Where(s, {3}, a))),
      den |-> Times(I(Where(s, {1, 3}, a)), I(Where(s, {2, 3}, a)))]]
=============================================================================
