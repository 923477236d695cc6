------------------------------ MODULE Mixture ------------------------------
(* The probabilistic meaning of a CrossCat state: densities, inference     *)
(* kernels and summaries, as expressions over a model record               *)
(*   M == [n, cols, views, alpha]                                          *)
(*   view == [id, cols, z, alpha]  z[r] = cluster of row r (1-based)       *)
EXTENDS Components, Network

Col(M, c)    == CHOOSE x \in Range(M.cols) : x.id = c
View(M, v)   == CHOOSE x \in Range(M.views) : x.id = v
ViewOf(M, c) == CHOOSE x \in Range(M.views) : c \in Range(x.cols)
Clusters(V)  == Range(V.z)
Fresh == -1
Members(V, k) == {r \in 1..Len(V.z) : V.z[r] = k}

(* observed codes of column col in the rows R *)
Obs(col, R) == LET S == Sorted({r \in R : col.x[r] # NaN})
               IN [i \in 1..Len(S) |-> col.x[S[i]]]
Sym == -77777       \* a cell left symbolic: the real value y of that column
CellPred(col, k, R, x) ==
  IF x = NaN THEN One
  ELSE IF x = Sym THEN PredAt(col, k, Obs(col, R), <<"s", "y", col.id>>)
  ELSE Pred(col, k, Obs(col, R), x)

(* A query assigns codes to columns: a sequence of <<c, x>>. *)
KeysOf(q) == {q[i][1] : i \in 1..Len(q)}
At(q, c) == LET i == CHOOSE j \in 1..Len(q) : q[j][1] = c IN q[i][2]
Restrict(q, S) == SelectSeq(q, LAMBDA p : p[1] \in S)

(* Joint density of the assignments q of view V in cluster k *)
RowIn(M, V, q, k) ==
  Prod([i \in 1..Len(q) |->
         CellPred(Col(M, q[i][1]), k, Members(V, k), q[i][2])])

(* CRP predictive weights over clusters and a fresh one *)
ClusterWeight(V, k) == IF k = Fresh THEN V.alpha ELSE I(Cardinality(Members(V, k)))
ClusterProb(V, k) == Div(ClusterWeight(V, k), Plus(V.alpha, I(Len(V.z))))
Support(V) == Sorted(Clusters(V)) \o <<Fresh>>

(* ---- densities --------------------------------------------------------- *)
(* p(T, z = k | C), p(C, z = k) ... for a hypothetical row of view V         *)
Weighted(M, V, q) ==
  LET K == Support(V) IN
  Sum([i \in 1..Len(K) |-> Times(ClusterProb(V, K[i]), RowIn(M, V, q, K[i]))])

ViewDensity(M, V, T, C) ==
  IF C = <<>> THEN Weighted(M, V, T)
  ELSE Div(Weighted(M, V, T \o C), Weighted(M, V, C))
(* the cluster itself among the targets / the constraints *)
ViewDensityJointZ(M, V, T, C, k) ==
  LET num == Times(ClusterProb(V, k), RowIn(M, V, T \o C, k)) IN
  IF C = <<>> THEN num ELSE Div(num, Weighted(M, V, C))
ViewDensityGivenZ(M, V, T, k) == RowIn(M, V, T, k)

(* Posterior over clusters given constraints *)
ClusterPosterior(M, V, C) ==
  LET K == Support(V) IN
  [i \in 1..Len(K) |-> <<K[i], Div(Times(ClusterProb(V, K[i]), RowIn(M, V, C, K[i])),
                                   Weighted(M, V, C))>>]

ColsOfView(V) == Range(V.cols)
TouchedViews(M, T) == SelectSeq(M.views, LAMBDA V : ColsOfView(V) \cap KeysOf(T) # {})
(* hypothetical row *)
RowDensity(M, T, C) ==
  LET W == TouchedViews(M, T) IN
  Prod([i \in 1..Len(W) |->
         ViewDensity(M, W[i], Restrict(T, ColsOfView(W[i])), Restrict(C, ColsOfView(W[i])))])
(* observed row r: the row's cluster is known in every view *)
ObservedDensity(M, r, T) ==
  Prod([i \in 1..Len(T) |->
         LET V == ViewOf(M, T[i][1]) IN
         CellPred(Col(M, T[i][1]), V.z[r], Members(V, V.z[r]), T[i][2])])

(* The law of simulated rows: views are independent; in each view first the *)
(* cluster is drawn, then every target given that cluster.  <<probability,  *)
(* cluster, densities of the targets>> per cluster and touched view.        *)
ViewLaw(M, V, T, C) ==
  LET P == ClusterPosterior(M, V, C) IN
  [i \in 1..Len(P) |-> <<P[i][2], P[i][1],
      [j \in 1..Len(T) |-> CellPred(Col(M, T[j][1]), P[i][1], Members(V, P[i][1]), T[j][2])]>>]
ViewLawAt(M, V, T, k) ==
  <<<<One, k, [j \in 1..Len(T) |-> CellPred(Col(M, T[j][1]), k, Members(V, k), T[j][2])]>>>>
RowLaw(M, T, C) ==
  LET W == TouchedViews(M, T) IN
  [i \in 1..Len(W) |-> ViewLaw(M, W[i], Restrict(T, ColsOfView(W[i])), Restrict(C, ColsOfView(W[i])))]
ObservedLaw(M, r, T) ==
  LET W == TouchedViews(M, T) IN
  [i \in 1..Len(W) |-> ViewLawAt(M, W[i], Restrict(T, ColsOfView(W[i])), W[i].z[r])]
LawDensity(law) ==
  Prod([i \in 1..Len(law) |->
         Sum([k \in 1..Len(law[i]) |-> Times(law[i][k][1], Prod(law[i][k][3]))])])

(* ---- model score -------------------------------------------------------- *)
CrpScore(alpha, sizes) ==
  LET n == ISum(sizes) IN
  Prod(<<Pow(alpha, I(Len(sizes))),
         Div(Gam(alpha), Gam(Plus(alpha, I(n)))),
         Prod([i \in 1..Len(sizes) |-> Gam(I(sizes[i]))])>>)
SizesOf(V) == LET K == Sorted(Clusters(V)) IN
              [i \in 1..Len(K) |-> Cardinality(Members(V, K[i]))]
ColScoreUnder(col, z) ==
  LET K == Sorted(Range(z)) IN
  Prod([i \in 1..Len(K) |-> Score(col, K[i], Obs(col, {r \in 1..Len(z) : z[r] = K[i]}))])
ViewLikelihood(M, V) == Prod([i \in 1..Len(V.cols) |-> ColScoreUnder(Col(M, V.cols[i]), V.z)])
ViewScore(M, V) == Times(CrpScore(V.alpha, SizesOf(V)), ViewLikelihood(M, V))
Likelihood(M) == Prod([i \in 1..Len(M.views) |-> ViewLikelihood(M, M.views[i])])
(* column partition prior; Cd = dependence blocks, each one customer *)
BlockCount(V, Cd) ==
  Len(SelectSeq(V.cols, LAMBDA c : \A i \in 1..Len(Cd) : c \notin Range(Cd[i])))
  + Cardinality({i \in 1..Len(Cd) : Range(Cd[i]) \cap Range(V.cols) # {}})
ColumnPrior(M, Cd) == CrpScore(M.alpha, [i \in 1..Len(M.views) |-> BlockCount(M.views[i], Cd)])
ModelScore(M, Cd) ==
  Times(ColumnPrior(M, Cd),
        Prod([i \in 1..Len(M.views) |-> ViewScore(M, M.views[i])]))

(* ---- row kernel ---------------------------------------------------------- *)
(* Unnormalised probability that row r of view V joins each cluster formed  *)
(* by the other rows, or stands alone.                                      *)
RowKernel(M, V, r) ==
  LET R(k)  == Members(V, k) \ {r}
      K     == Sorted({V.z[q] : q \in (1..Len(V.z)) \ {r}}) \o <<Fresh>>
      W(k)  == IF k = Fresh THEN V.alpha ELSE I(Cardinality(R(k)))
      \* an uncollapsed lone row keeps the parameters of its own cluster
      Lab(k) == IF k = Fresh /\ R(V.z[r]) = {} THEN V.z[r] ELSE k
  IN [i \in 1..Len(K) |->
        <<K[i], Times(W(K[i]),
            Prod([j \in 1..Len(V.cols) |->
                LET col == Col(M, V.cols[j]) IN
                CellPred(col, Lab(K[i]), R(K[i]), col.x[r])]))>>]

(* ---- column kernel ------------------------------------------------------- *)
(* All partitions of 1..n as restricted growth sequences *)
RECURSIVE RGS(_)
RGS(n) == IF n = 0 THEN {<<>>}
          ELSE UNION {{Append(p, k) : k \in 1..(1 + Cardinality(Range(p)))} : p \in RGS(n-1)}
SizesZ(z) == LET K == Sorted(Range(z)) IN [i \in 1..Len(K) |-> Count(z, K[i])]
(* prior of a fresh row partition: the concentration is uniform on a grid   *)
PartitionPrior(z, grid) ==
  Div(Sum([i \in 1..Len(grid) |-> CrpScore(grid[i], SizesZ(z))]), I(Len(grid)))

(* weights of the existing views (without c); c's own lone view counts as   *)
(* one of the m auxiliary ones; independent views (avoid) get no weight     *)
OthersIn(V, c) == Len(SelectSeq(V.cols, LAMBDA d : d # c))
AuxWeight(M, m) == IF m = 1 THEN M.alpha ELSE Div(M.alpha, I(m))
ViewWeights(M, c, avoid, m) ==
  [i \in 1..Len(M.views) |->
     LET V == M.views[i]
         w == IF OthersIn(V, c) = 0 THEN AuxWeight(M, m) ELSE I(OthersIn(V, c))
         barred == \E p \in Range(avoid) : c \in Range(p) /\
                     \E a \in Range(p) \ {c} : a \in Range(V.cols)
     IN <<V.id, IF barred THEN Zero ELSE Times(w, ColScoreUnder(Col(M, c), V.z))>>]
Lone(M, c) == OthersIn(ViewOf(M, c), c) = 0
(* Outcomes, with m auxiliary views whose row partitions come from the      *)
(* prior: <<view id, probability>>, and <<z, probability>> for a fresh view *)
(* with row partition z.                                                    *)
ColKernel(M, c, avoid, grid, m) ==
  LET W   == ViewWeights(M, c, avoid, m)
      tot == Sum([i \in 1..Len(W) |-> W[i][2]])
      Zs  == SetSeq(RGS(M.n))
      ML  == [j \in 1..Len(Zs) |-> Times(AuxWeight(M, m), ColScoreUnder(Col(M, c), Zs[j]))]
      PP  == [j \in 1..Len(Zs) |-> PartitionPrior(Zs[j], grid)]
      k   == IF Lone(M, c) THEN m - 1 ELSE m
      As  == SetSeq([1..k -> 1..Len(Zs)])
      Tot == [a \in 1..Len(As) |-> Plus(tot, Sum([j \in 1..k |-> ML[As[a][j]]]))]
      PA  == [a \in 1..Len(As) |-> Prod([j \in 1..k |-> PP[As[a][j]]])]
      Hits(z) == SelectSeq([a \in 1..Len(As) |-> a], LAMBDA a : \E j \in 1..k : As[a][j] = z)
  IN [existing |-> [i \in 1..Len(W) |-> <<W[i][1],
        Sum([a \in 1..Len(As) |-> Times(PA[a], Div(W[i][2], Tot[a]))])>>],
      fresh |-> IF k = 0 THEN <<>> ELSE [z \in 1..Len(Zs) |-> <<Zs[z],
        LET H == Hits(z) IN
        Sum([h \in 1..Len(H) |->
           LET a == H[h] IN
           Prod(<<PA[a], I(Cardinality({j \in 1..k : As[a][j] = z})), Div(ML[z], Tot[a])>>)])>>]]

(* joint of column partition, row partitions and data, the concentrations   *)
(* of the views averaged over their grid                                    *)
JointScore(M, grid) ==
  Times(ColumnPrior(M, <<>>),
        Prod([i \in 1..Len(M.views) |->
               Times(PartitionPrior(M.views[i].z, grid), ViewLikelihood(M, M.views[i]))]))

(* ---- summaries ------------------------------------------------------------ *)
(* the variable graph: every view (with the variable exposing its cluster)  *)
(* and every composed model H[i] = <<outputs, inputs>>                      *)
Graph(M, H) == [i \in 1..(Len(M.views) + Len(H)) |->
   IF i <= Len(M.views) THEN <<Append(M.views[i].cols, 10000000 + M.views[i].id), <<>>>>
   ELSE H[i - Len(M.views)]]
Dependent(M, H, a, b) == DependentVars(Graph(M, H), a, b)
(* number of views in which the rows share a cluster, number of views *)
SimilarityCounts(M, r, s, C) ==
  LET W == SelectSeq(M.views, LAMBDA V : ColsOfView(V) \cap C # {})
      S == SelectSeq(W, LAMBDA V : V.z[r] = V.z[s])
  IN <<Len(S), Len(W)>>
RelevantAll(M, c, r, S) ==
  LET V == ViewOf(M, c) IN S # {} /\ \A s \in S : V.z[s] = V.z[r]

(* hypothetical rows H (sequences of <<column, code>>) join view V one after *)
(* the other: the probability that all of them join cluster k               *)
AddRow(M, V, row, k) ==
  LET cell(c) == IF c \in KeysOf(row) THEN At(row, c) ELSE NaN IN
  [m |-> [M EXCEPT !.n = @ + 1,
          !.cols = [i \in 1..Len(M.cols) |-> [M.cols[i] EXCEPT !.x = Append(@, cell(M.cols[i].id))]]],
   v |-> [V EXCEPT !.z = Append(@, k)]]
RECURSIVE AllJoin(_, _, _, _)
AllJoin(M, V, k, H) ==
  IF H = <<>> THEN One
  ELSE LET P == ClusterPosterior(M, V, H[1])
           e == AddRow(M, V, H[1], k)
       IN Times((CHOOSE p \in Range(P) : p[1] = k)[2], AllJoin(e.m, e.v, k, Tail(H)))

(* posterior probability that row t is in the cluster of the rows Qs, given  *)
(* that those share one; the other rows stay where they are                 *)
RECURSIVE Seat(_, _)           \* q customers in turn take a table with n people
Seat(w, q) == IF q = 0 THEN <<>> ELSE <<w>> \o Seat(Plus(w, One), q - 1)
Join(V, k, R, q) ==      \* R: rows at k; a fresh table weighs alpha, then 1, 2 ...
  IF k = Fresh THEN Times(V.alpha, Prod(Seat(One, q - 1))) ELSE Prod(Seat(I(Cardinality(R)), q))
Gain(M, V, k, R, Qr) ==   \* density of the rows Qr in a cluster that has the rows R
  Prod([i \in 1..Len(V.cols) |-> LET col == Col(M, V.cols[i]) IN
     Div(Score(col, k, Obs(col, R \cup Qr)), Score(col, k, Obs(col, R)))])
RelevanceParts(M, V, t, Qr) ==
  LET rest == (1..Len(V.z)) \ (Qr \cup {t})
      R(k) == {r \in rest : V.z[r] = k}
      K == Sorted({V.z[r] : r \in rest}) \o <<Fresh>>
      q == Cardinality(Qr)
      same == Sum([i \in 1..Len(K) |->
         Times(Join(V, K[i], R(K[i]), q + 1), Gain(M, V, K[i], R(K[i]), Qr \cup {t}))])
      T(i) == LET L == SelectSeq(K, LAMBDA k : k # K[i]) \o (IF K[i] = Fresh THEN <<Fresh>> ELSE <<>>) IN
              Sum([j \in 1..Len(L) |-> Times(Join(V, L[j], R(L[j]), 1), Gain(M, V, L[j], R(L[j]), {t}))])
      diff == Sum([i \in 1..Len(K) |->
         Prod(<<Join(V, K[i], R(K[i]), q), Gain(M, V, K[i], R(K[i]), Qr), T(i)>>)])
  IN <<same, diff>>
Relevance(M, V, t, Qr) == IF t \in Qr THEN One ELSE
  LET p == RelevanceParts(M, V, t, Qr) IN Div(p[1], Plus(p[1], p[2]))
=============================================================================
