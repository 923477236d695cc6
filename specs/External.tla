------------------------------ MODULE External ------------------------------
(* The models that are not crosscat: what they record, what they answer.    *)
(*                                                                          *)
(* A model G: [kind, outs, ins, types, k, itypes, ik, par]                  *)
(*   types/itypes: "num" or "cat" per output/input, k/ik: number of values  *)
(* A state  S: [D, fit, n]: rows <<[id, x, y]>> in order of arrival, the    *)
(*   rows at the time of the last fit, how often it was fitted.             *)
(* Assignments are sequences of <<variable, value>>; NA marks a missing one. *)
(* Laws: sequences of [w, comps], a weighted mixture of products, comps[i]  *)
(*   the distribution of the i-th target; or a multivariate normal.         *)
EXTENDS Linear

NA == -99999
KeysOf(a) == {a[i][1] : i \in 1..Len(a)}
At(a, v) == (CHOOSE i \in 1..Len(a) : a[i][1] = v)
ValAt(a, v) == a[At(a, v)][2]
Known(a) == SelectSeq(a, LAMBDA e : e[2] # NA)
Dup(a) == Cardinality(KeysOf(a)) < Len(a)
Pos(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v
Type(G, v) == G.types[Pos(G.outs, v)]
Levels(G, v) == G.k[Pos(G.outs, v)]
Ids(D) == {D[i].id : i \in 1..Len(D)}
RowOf(D, id) == D[CHOOSE i \in 1..Len(D) : D[i].id = id]
Without(D, id) == SelectSeq(D, LAMBDA r : r.id # id)

Joint(G)    == G.kind \in {"kde", "knn", "factor"}     \* unconditional, with a dataset
Regress(G)  == G.kind \in {"linreg", "ols", "forest"}  \* one output given inputs
Keeps(G)    == Joint(G) \/ Regress(G) \/ G.kind = "troll"
Latent(G)   == IF G.kind = "factor" THEN Range(SubSeq(G.outs, Len(G.outs) - G.par.L + 1, Len(G.outs))) ELSE {}

(* ---- recording ------------------------------------------------------------ *)
InRange(t, k, x) == t = "num" \/ (0 <= x /\ x < k)
InputsOk(G, y) ==
  /\ KeysOf(y) = Range(G.ins) /\ \A i \in 1..Len(y) : y[i][2] # NA
  /\ \A i \in 1..Len(G.ins) :          \* linear regression: value k stands for "another one"
       InRange(G.itypes[i], IF G.kind = "linreg" THEN G.ik[i] + 1 ELSE G.ik[i], ValAt(y, G.ins[i]))
TargetOk(G, x) ==
  /\ G.outs[1] \in KeysOf(x) /\ ValAt(x, G.outs[1]) # NA
  /\ (G.kind = "forest" => InRange("cat", G.k[1], ValAt(x, G.outs[1])))
Accepts(G, D, o) ==
  CASE o.k = "inc" /\ Joint(G) ->
         /\ o.id \notin Ids(D) /\ o.y = <<>> /\ o.x # <<>> /\ KeysOf(o.x) \subseteq Range(G.outs) \ Latent(G)
    [] o.k = "inc" /\ Regress(G) -> o.id \notin Ids(D) /\ TargetOk(G, o.x) /\ InputsOk(G, o.y)
    [] o.k = "inc" /\ G.kind = "troll" -> o.id \notin Ids(D)
    [] o.k = "uninc" /\ Keeps(G) -> o.id \in Ids(D)
    [] OTHER -> TRUE
Step(G, S, o) ==
  IF ~Accepts(G, S.D, o) THEN S
  ELSE CASE o.k = "inc" /\ Keeps(G) -> [S EXCEPT !.D = Append(@, [id |-> o.id, x |-> Known(o.x), y |-> o.y])]
         [] o.k = "uninc" /\ Keeps(G) -> [S EXCEPT !.D = Without(@, o.id)]
         [] o.k = "fit" -> IF S.D = <<>> THEN [S EXCEPT !.n = @ + 1] ELSE [S EXCEPT !.fit = S.D, !.n = @ + 1]
         [] OTHER -> S
Fresh == [D |-> <<>>, fit |-> <<>>, n |-> 0]

(* what is known of the row a query is about *)
Facts(G, D, id, ts, c) ==
  IF ~Joint(G) \/ id \notin Ids(D) THEN c
  ELSE c \o SelectSeq(RowOf(D, id).x, LAMBDA e : e[1] \notin ts /\ e[1] \notin KeysOf(c))

(* ---- univariate distributions ---------------------------------------------- *)
Normal(m, s) == [d |-> "normal", m |-> m, s |-> s]
Cat(p)       == [d |-> "cat", p |-> p]
Atom(x)      == [d |-> "atom", m |-> x]
Unif(a, b)   == [d |-> "unif", a |-> a, b |-> b]
StT(m, v, n) == [d |-> "t", m |-> m, v |-> v, n |-> n]   \* location, squared scale, degrees
NormalAt(m, s, x) == Div(Exp(Half(Minus(Zero, Pow(Div(Minus(x, m), s), I(2))))),
                         Times(s, Pow(Times(I(2), Pi), Q(1, 2))))
TAt(c, x) ==
  Times(Div(Gam(Half(Plus(c.n, One))), Times(Gam(Half(c.n)), Pow(Prod(<<c.n, Pi, c.v>>), Q(1, 2)))),
        Pow(Plus(One, Div(Pow(Minus(x, c.m), I(2)), Times(c.n, c.v))), Minus(Zero, Half(Plus(c.n, One)))))
(* density at the integer x *)
DensAt(c, x) == CASE c.d = "normal" -> NormalAt(c.m, c.s, I(x))
                  [] c.d = "cat" -> IF x \in 0..(Len(c.p) - 1) THEN c.p[x + 1] ELSE Zero
                  [] c.d = "t" -> TAt(c, I(x))
(* mixtures of products: L = <<[w, comps]>>, comps aligned with the variables vs *)
CompAt(vs, comps, v) == comps[Pos(vs, v)]
ProdAt(vs, comps, q) == Prod([j \in 1..Len(q) |-> DensAt(CompAt(vs, comps, q[j][1]), q[j][2])])
Weight(L) == Sum([i \in 1..Len(L) |-> L[i].w])
MixDensity(vs, L, t) == Div(Sum([i \in 1..Len(L) |-> Times(L[i].w, ProdAt(vs, L[i].comps, t))]), Weight(L))
MixGiven(vs, L, c, ts) ==        \* the law of ts given c
  [i \in 1..Len(L) |-> [w |-> Times(L[i].w, ProdAt(vs, L[i].comps, c)),
                        comps |-> [j \in 1..Len(ts) |-> CompAt(vs, L[i].comps, ts[j])]]]

(* ---- kernel density ---------------------------------------------------------- *)
Kernel(G, v, x) ==
  LET h == G.par.bw[Pos(G.outs, v)]  k == Levels(G, v) IN
  IF Type(G, v) = "num" THEN Normal(I(x), h)
  ELSE Cat([j \in 1..k |-> IF j - 1 = x THEN Minus(One, h) ELSE Div(h, I(k - 1))])
Complete(D, vs) == SelectSeq(D, LAMBDA r : vs \subseteq KeysOf(r.x))
KdeMix(G, D, vs) ==              \* over the variables vs, one member per complete row
  LET R == Complete(D, Range(vs)) IN
  [i \in 1..Len(R) |-> [w |-> One, comps |-> [j \in 1..Len(vs) |-> Kernel(G, vs[j], ValAt(R[i].x, vs[j]))]]]
KdeLaw(G, D, ts, c) ==
  LET vs == ts \o [j \in 1..Len(c) |-> c[j][1]] IN MixGiven(vs, KdeMix(G, D, vs), c, ts)

(* ---- nearest neighbours --------------------------------------------------------- *)
CodeOf(G, v, x) == IF Type(G, v) = "num" THEN <<x>>
                   ELSE [j \in 1..(Levels(G, v) - 1) |-> IF x = j - 1 THEN 1 ELSE 0]
Sq(a, b) == ISum([j \in 1..Len(a) |-> (a[j] - b[j]) * (a[j] - b[j])])
Dist(G, a, b, vs) == ISum([j \in 1..Len(vs) |-> Sq(CodeOf(G, vs[j], ValAt(a, vs[j])), CodeOf(G, vs[j], ValAt(b, vs[j])))])
RECURSIVE SortSeq2(_)
SortSeq2(s) == IF s = <<>> THEN <<>> ELSE LET m == Min(Range(s)) IN
  [i \in 1..Count(s, m) |-> m] \o SortSeq2(SelectSeq(s, LAMBDA e : e # m))
(* the sets of m positions that can be called the m nearest *)
Nearest(d, m) == LET t == SortSeq2(d)[m]
                     sure == {i \in 1..Len(d) : d[i] < t}
                     edge == {i \in 1..Len(d) : d[i] = t}
                 IN {sure \cup e : e \in {f \in SUBSET edge : Cardinality(f) = m - Cardinality(sure)}}
Mean(xs) == Q(ISum(xs), Len(xs))
Sumsq(xs) == Len(xs) * Dot(xs, xs) - ISum(xs) * ISum(xs)       \* n^2 times the variance
Local(G, v, xs) ==
  IF Type(G, v) = "num"
  THEN Normal(Mean(xs), IF Sumsq(xs) = 0 THEN Q(1, 100) ELSE Pow(Q(Sumsq(xs), Len(xs) * Len(xs)), Q(1, 2)))
  ELSE Cat([j \in 1..Levels(G, v) |-> Q(Count(xs, j - 1), Len(xs))])
KnnRows(G, D, ts, c) == Complete(D, Range(ts) \cup KeysOf(c))
KnnOk(G, D, ts, c) == c # <<>> /\ Len(D) >= G.par.K /\ Len(KnnRows(G, D, ts, c)) >= G.par.K
(* the candidates among which the K neighbours are, with their localities *)
Candidates(G, D, ts, c) ==
  LET R == KnnRows(G, D, ts, c)  cv == [j \in 1..Len(c) |-> c[j][1]]
      d == [i \in 1..Len(R) |-> Dist(G, R[i].x, c, cv)]
      t == SortSeq2(d)[G.par.K]
      V == Sorted({i \in 1..Len(R) : d[i] <= t})
      m == Min({G.par.K, G.par.M})
      locs(i) == SetSeq(Nearest([j \in 1..Len(R) |-> Dist(G, R[i].x, R[j].x, ts \o cv)], m))
      comps(L) == LET s == Sorted(L) IN [u \in 1..Len(ts) |-> Local(G, ts[u], [a \in 1..Len(s) |-> ValAt(R[s[a]].x, ts[u])])]
  IN [i \in 1..Len(V) |-> LET l == locs(V[i]) IN [a \in 1..Len(l) |-> comps(l[a])]]
Settled(C) == \A i \in 1..Len(C) : Len(C[i]) = 1
(* a single draw: one of the candidates, uniformly *)
KnnLaw(C) == [i \in 1..Len(C) |-> [w |-> One, comps |-> C[i][1]]]
(* the densities that may be answered: any K of the candidates *)
KnnDensities(G, C, ts, t) ==
  LET S == {s \in SUBSET (1..Len(C)) : Cardinality(s) = G.par.K} IN
  SetSeq({LET q == Sorted(s) IN
          MixDensity(ts, [a \in 1..Len(q) |-> [w |-> One, comps |-> C[q[a]][1]]], t) : s \in S})
(* no facts at all: take those of a random row on the variables not asked for *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Fallback(G, D, ts) ==
  LET all == Range(ts) = Range(G.outs)
      dv == IF all THEN <<ts[1]>> ELSE SelectSeq(G.outs, LAMBDA v : v \notin Range(ts))
      us == IF all THEN Tail(ts) ELSE ts
      R == Complete(D, Range(dv))
      e(i) == [j \in 1..Len(dv) |-> <<dv[j], ValAt(R[i].x, dv[j])>>]
      C(i) == Candidates(G, D, us, e(i))
  IN [ok |-> IF R = <<>> \/ (\E i \in 1..Len(R) : ~KnnOk(G, D, us, e(i))) THEN 0
             ELSE IF \E i \in 1..Len(R) : ~Settled(C(i)) THEN 2 ELSE 1,
      law |-> IF R = <<>> \/ (\E i \in 1..Len(R) : ~KnnOk(G, D, us, e(i))) \/ (\E i \in 1..Len(R) : ~Settled(C(i))) THEN <<>>
              ELSE Flat([i \in 1..Len(R) |-> LET L == KnnLaw(C(i)) IN
                     [a \in 1..Len(L) |-> [w |-> Q(1, Len(L)),
                        comps |-> IF all THEN <<Atom(I(e(i)[1][2]))>> \o L[a].comps ELSE L[a].comps]]])]

(* ---- Bayesian linear regression ---------------------------------------------------- *)
Covariates(G, y) ==
  <<1>> \o Flat([i \in 1..Len(G.ins) |-> LET x == ValAt(y, G.ins[i]) IN
     IF G.itypes[i] = "num" THEN <<x>>
     ELSE [j \in 1..(IF G.kind = "ols" THEN G.ik[i] - 1 ELSE G.ik[i]) |-> IF x = j - 1 THEN 1 ELSE 0]])
DesignX(G, D) == [i \in 1..Len(D) |-> Covariates(G, D[i].y)]
Responses(G, D) == [i \in 1..Len(D) |-> ValAt(D[i].x, G.outs[1])]
Gram(X, p) == [a \in 1..p |-> [b \in 1..p |-> ISum([i \in 1..Len(X) |-> X[i][a] * X[i][b]])]]
Moment(X, y, p) == [a \in 1..p |-> ISum([i \in 1..Len(X) |-> X[i][a] * y[i]])]
Dim(G) == 1 + ISum([i \in 1..Len(G.ins) |-> IF G.itypes[i] = "num" THEN 1
                      ELSE IF G.kind = "ols" THEN G.ik[i] - 1 ELSE G.ik[i]])
AddM(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> A[i][j] + B[i][j]]]
(* hyperparameters a, b (expressions), mu and the inverse of V (integers)    *)
Posterior(G, X, y) ==
  LET p == Dim(G)  Vi == G.par.Vinv  mu == G.par.mu
      P == AddM(Vi, Gram(X, p))  Vm == Times2(Vi, mu)  M == Moment(X, y, p)
      r == [i \in 1..p |-> Vm[i] + M[i]]
      d == Det(P)
  IN [P |-> P, r |-> r, d |-> d, a |-> Plus(G.par.a, Q(Len(y), 2)),
      b |-> Plus(G.par.b, Half(Minus(I(Dot(mu, Vm) + Dot(y, y)), Q(Cross(P, r, r), d))))]
ZOf(h) == Div(Gam(h.a), Times(Pow(I(h.d), Q(1, 2)), Pow(h.b, h.a)))
LinDensity(G, D, x, y) ==
  LET X == DesignX(G, D)  R == Responses(G, D) IN
  Div(Div(ZOf(Posterior(G, Append(X, Covariates(G, y)), Append(R, x))), ZOf(Posterior(G, X, R))),
      Pow(Times(I(2), Pi), Q(1, 2)))
LinScore(G, D) ==
  LET X == DesignX(G, D)  R == Responses(G, D) IN
  Div(Div(ZOf(Posterior(G, X, R)), ZOf(Posterior(G, <<>>, <<>>))), Pow(Times(I(2), Pi), Q(Len(D), 2)))
LinLaw(G, D, y) ==
  LET h == Posterior(G, DesignX(G, D), Responses(G, D))  x == Covariates(G, y) IN
  StT(Q(Cross(h.P, h.r, x), h.d), Times(Div(h.b, h.a), Plus(One, Q(Cross(h.P, x, x), h.d))), Times(I(2), h.a))

(* ---- ordinary least squares: the fit of some earlier dataset ------------------------ *)
OlsFit(G, F) ==
  LET p == Dim(G)  X == DesignX(G, F)  y == Responses(G, F)  P == Gram(X, p)  r == Moment(X, y, p)  d == Det(P) IN
  [P |-> P, r |-> r, d |-> d, rss |-> IF d = 0 THEN Zero ELSE Minus(I(Dot(y, y)), Q(Cross(P, r, r), d)),
   exact |-> d # 0 /\ Dot(y, y) * d = Cross(P, r, r)]
OlsMean(f, x) == Q(Cross(f.P, f.r, x), f.d)
OlsNoise(f, F) == Pow(Div(f.rss, I(Len(F))), Q(1, 2))

(* ---- classification with a uniform outlier share ------------------------------------- *)
Alpha == <<"s", "alpha">>
Tree(x) == <<"s", "rf", x>>              \* the classifier's own probability of class x
(* the reference classifier: frequency of the class among the fitted rows with *)
(* the same inputs, or among all where there are none                           *)
Freq(G, F, y, x) ==
  LET same == SelectSeq(F, LAMBDA r : \A v \in Range(G.ins) : ValAt(r.y, v) = ValAt(y, v))
      R == IF same = <<>> THEN F ELSE same
  IN Q(Cardinality({i \in 1..Len(R) : ValAt(R[i].x, G.outs[1]) = x}), Len(R))
Classes(G, F) == {ValAt(F[i].x, G.outs[1]) : i \in 1..Len(F)}
ForestP(G, F, y, x, alpha) ==
  IF F = <<>> THEN Q(1, G.k[1])
  ELSE LET out == Div(alpha, I(G.k[1])) IN
       IF x \notin Classes(G, F) THEN out
       ELSE Plus(out, Times(Minus(One, alpha), IF G.par.tree = 1 THEN Tree(x) ELSE Freq(G, F, y, x)))
ForestScore(G, F, D, alpha) ==
  Prod([i \in 1..Len(D) |-> ForestP(G, F, D[i].y, ValAt(D[i].x, G.outs[1]), alpha)])
AlphaGrid == [j \in 1..30 |-> Plus(Q(1, 100), Times(Q(98, 100), Q(j - 1, 29)))]
AlphaLaw(G, S) == [j \in 1..30 |-> ForestScore(G, S.fit, S.D, AlphaGrid[j])]

(* ---- factor analysis: x = W z + mux + e over <<observables, latents>> ------------------ *)
SymOr(G, S, name, i, j, x) == IF S.fit # <<>> THEN <<"s", name, i, j>> ELSE I(x)
FaW(G, S)   == [i \in 1..G.par.D |-> [j \in 1..G.par.L |-> SymOr(G, S, "W", i, j, G.par.W[i][j])]]
FaPsi(G, S) == [i \in 1..G.par.D |-> [j \in 1..G.par.D |-> SymOr(G, S, "Psi", i, j, G.par.Psi[i][j])]]
FaMu(G, S)  == [i \in 1..(G.par.D + G.par.L) |->
                  IF i <= G.par.D THEN SymOr(G, S, "mux", i, 0, G.par.mux[i]) ELSE Zero]
FaCov(G, S) ==
  LET W == FaW(G, S)  P == FaPsi(G, S)  d == G.par.D IN
  [i \in 1..(d + G.par.L) |-> [j \in 1..(d + G.par.L) |->
     IF i <= d /\ j <= d THEN Plus(DotT(W[i], W[j]), P[i][j])
     ELSE IF i <= d THEN W[i][j - d]
     ELSE IF j <= d THEN W[j][i - d]
     ELSE IF i = j THEN One ELSE Zero]]
FullRows(G, D) == SelectSeq(D, LAMBDA r : KeysOf(r.x) = Range(SubSeq(G.outs, 1, G.par.D)))
(* the maximum-likelihood mean: that of the complete rows *)
FaMean(G, D) == LET R == FullRows(G, D) IN
  [i \in 1..G.par.D |-> Mean([j \in 1..Len(R) |-> ValAt(R[j].x, G.outs[i])])]
Places(G, a) == [i \in 1..Len(a) |-> Pos(G.outs, a[i][1])]
Values(a) == [i \in 1..Len(a) |-> I(a[i][2])]
FaDensity(G, S, t, c) ==
  IF c = <<>> THEN MvnDensity(FaMu(G, S), FaCov(G, S), Places(G, t), Values(t))
  ELSE MvnGiven(FaMu(G, S), FaCov(G, S), Places(G, t), Values(t), Places(G, c), Values(c))

(* ---- demonstration models ------------------------------------------------------------ *)
TwoTable == <<<<Q(9, 10), Q(1, 10)>>, <<Q(3, 10), Q(7, 10)>>>>
Quadrant(a, b) == IF a >= 0 /\ b >= 0 THEN 1 ELSE IF a <= 0 /\ b >= 0 THEN 2 ELSE IF a >= 0 THEN 3 ELSE 4
FourShares == <<<<70, 10, 5, 5>>, <<10, 80, 10, 10>>, <<10, 15, 65, 10>>, <<10, 5, 10, 75>>>>
FourRow(a, b) == LET s == FourShares[Quadrant(a, b)] IN [j \in 1..4 |-> Q(s[j], ISum(s))]
PieceMix(G, y) ==          \* outs = <<x, z>>
  [z \in 1..2 |-> [w |-> IF z = 1 THEN G.par.flip ELSE Minus(One, G.par.flip),
                   comps |-> <<Normal(I(y + 2 * (z - 1) - 1), G.par.sigma),
                               Cat([j \in 1..2 |-> IF j = z THEN One ELSE Zero])>>]]
DotsMix(G) == [i \in 1..4 |-> [w |-> One, comps |-> <<Normal(I(<<-1, 1, -1, 1>>[i]), G.par.noise),
                                                      Normal(I(<<-1, -1, 1, 1>>[i]), G.par.noise)>>]]
Correlated(s, n) == LET r == IF s = 1 THEN Minus(One, n) ELSE Minus(n, One) IN <<<<One, r>>, <<r, One>>>>
(* cosine of n thirds of Pi *)
CosThird(n) == <<Q(1, 1), Q(1, 2), Q(-1, 2), Q(-1, 1), Q(-1, 2), Q(1, 2)>>[(n % 6) + 1]
CosNegative(n) == (n % 6) \in {2, 3, 4}
SinLaw(n, h) == IF CosNegative(n) THEN Unif(CosThird(n), Plus(CosThird(n), h))
                ELSE Unif(Minus(CosThird(n), h), CosThird(n))
Sq2(x) == Times(x, x)
ParabolaLaw(x, h) == <<[w |-> One, comps |-> <<Unif(Minus(Sq2(x), h), Plus(Sq2(x), h))>>],
                       [w |-> One, comps |-> <<Unif(Minus(Zero, Plus(Sq2(x), h)), Minus(h, Sq2(x)))>>]>>
DiamondLaw(ax, h) == LET a == Minus(One, ax) IN      \* ax = |x|, 2 (1 - ax) >= h
  <<[w |-> One, comps |-> <<Unif(Minus(a, h), a)>>],
    [w |-> One, comps |-> <<Unif(Minus(Zero, a), Minus(h, a))>>]>>

(* ---- what a query answers -------------------------------------------------------------- *)
Refused == [ok |-> 0]
Unsettled == [ok |-> 2]
Single(L) == [ok |-> 1, form |-> "mix", law |-> L]
One2(c) == Single(<<[w |-> One, comps |-> <<c>>]>>)
QueryOk(G, ts, c) ==
  /\ ts # {} /\ ts \subseteq Range(G.outs) /\ KeysOf(c) \subseteq Range(G.outs)
  /\ ts \cap KeysOf(c) = {}
(* the density of t *)
Logpdf(G, S, o) ==
  LET D == S.D  ts == KeysOf(o.t)  c == Facts(G, D, o.id, ts, o.c)  P(p) == [ok |-> 1, p |-> <<p>>] IN
  IF Joint(G) THEN
    IF o.y # <<>> \/ ~QueryOk(G, ts, o.c) \/ (\E i \in 1..Len(o.t) : o.t[i][2] = NA) THEN Refused
    ELSE CASE G.kind = "kde" ->
                IF D = <<>> THEN Refused
                ELSE LET vs == [j \in 1..Len(o.t) |-> o.t[j][1]]  L == KdeLaw(G, D, vs, c) IN
                     IF L = <<>> THEN Unsettled ELSE P(MixDensity(vs, L, o.t))
           [] G.kind = "knn" ->
                LET vs == [j \in 1..Len(o.t) |-> o.t[j][1]] IN
                IF ~KnnOk(G, D, vs, c) THEN Refused
                ELSE LET C == Candidates(G, D, vs, c) IN
                     IF ~Settled(C) THEN Unsettled ELSE [ok |-> 1, p |-> KnnDensities(G, C, vs, o.t)]
           [] G.kind = "factor" -> P(FaDensity(G, S, o.t, c))
  ELSE IF Regress(G) THEN
    IF o.id \in Ids(D) \/ o.c # <<>> \/ ~InputsOk(G, o.y) \/ G.outs[1] \notin ts \/ ValAt(o.t, G.outs[1]) = NA
    THEN Refused
    ELSE LET x == ValAt(o.t, G.outs[1]) IN
         CASE G.kind = "linreg" -> P(LinDensity(G, D, x, o.y))
           [] G.kind = "ols" ->
                IF S.fit = <<>> THEN Refused
                ELSE LET f == OlsFit(G, S.fit) IN
                     IF f.d = 0 \/ f.exact THEN Unsettled
                     ELSE P(NormalAt(OlsMean(f, Covariates(G, o.y)), OlsNoise(f, S.fit), I(x)))
           [] G.kind = "forest" ->
                P(IF x \in 0..(G.k[1] - 1) THEN ForestP(G, S.fit, o.y, x, Alpha) ELSE Zero)
  ELSE LET in1 == o.y[1][2] IN
       CASE G.kind = "twoway" -> P(IF o.t[1][2] \in 0..1 THEN TwoTable[in1 + 1][o.t[1][2] + 1] ELSE Zero)
         [] G.kind = "fourway" ->
              P(IF o.t[1][2] \in 0..3 THEN FourRow(ValAt(o.y, G.ins[1]), ValAt(o.y, G.ins[2]))[o.t[1][2] + 1] ELSE Zero)
         [] G.kind = "troll" -> P(NormalAt(I(ValAt(o.y, G.ins[1])), I(Abs(ValAt(o.y, G.ins[2])) + 1), I(o.t[1][2])))
         [] G.kind = "piece" -> P(MixDensity(G.outs, [i \in 1..2 |-> LET e == PieceMix(G, in1)[i] IN
                                     [e EXCEPT !.w = Times(@, ProdAt(G.outs, e.comps, o.c))]], o.t))
         [] G.kind = "dots" -> P(MixDensity(G.outs, [i \in 1..4 |-> LET e == DotsMix(G)[i] IN
                                     [e EXCEPT !.w = Times(@, ProdAt(G.outs, e.comps, o.c))]], o.t))
         [] G.kind = "corr" -> P(IF o.c = <<>>
              THEN MvnDensity(<<Zero, Zero>>, Correlated(1, G.par.noise), Places(G, o.t), Values(o.t))
              ELSE MvnGiven(<<Zero, Zero>>, Correlated(1, G.par.noise), Places(G, o.t), Values(o.t), Places(G, o.c), Values(o.c)))
         [] G.kind = "xcross" -> P(Half(Sum([s \in 1..2 |->
              MvnDensity(<<Zero, Zero>>, Correlated(s, G.par.noise), Places(G, o.t), Values(o.t))])))
         [] OTHER -> Unsettled
(* the law of a simulated row *)
Simulate(G, S, o) ==
  LET D == S.D  ts == Range(o.ts)  c == Facts(G, D, o.id, ts, o.c) IN
  IF Joint(G) THEN
    IF o.y # <<>> \/ ~QueryOk(G, ts, o.c) THEN Refused
    ELSE CASE G.kind = "kde" ->
                IF D = <<>> THEN Refused
                ELSE LET L == KdeLaw(G, D, o.ts, c) IN IF L = <<>> THEN Unsettled ELSE Single(L)
           [] G.kind = "knn" ->
                IF Len(D) < G.par.K THEN Refused
                ELSE IF c = <<>> THEN LET f == Fallback(G, D, o.ts) IN
                       IF f.ok = 1 THEN Single(f.law) ELSE IF f.ok = 2 THEN Unsettled ELSE Unsettled
                ELSE IF ~KnnOk(G, D, o.ts, c) THEN Refused
                ELSE LET C == Candidates(G, D, o.ts, c) IN IF Settled(C) THEN Single(KnnLaw(C)) ELSE Unsettled
           [] G.kind = "factor" ->
                LET T == [i \in 1..Len(o.ts) |-> Pos(G.outs, o.ts[i])] IN
                [ok |-> 1, form |-> "mvn", law |-> <<[w |-> One,
                   m |-> MvnMean(FaMu(G, S), FaCov(G, S), T, Places(G, c), Values(c)),
                   s |-> MvnCov(FaMu(G, S), FaCov(G, S), T, Places(G, c))]>>]
  ELSE IF Regress(G) THEN
    IF o.c # <<>> \/ o.ts # G.outs THEN Refused
    ELSE IF o.id \in Ids(D) THEN One2(Atom(I(ValAt(RowOf(D, o.id).x, G.outs[1]))))
    ELSE IF ~InputsOk(G, o.y) THEN Refused
    ELSE CASE G.kind = "linreg" -> One2(LinLaw(G, D, o.y))
           [] G.kind = "ols" ->          \* the noise of a sampled response is switched off
                IF S.fit = <<>> THEN Refused
                ELSE LET f == OlsFit(G, S.fit) IN IF f.d = 0 THEN Unsettled ELSE One2(Atom(OlsMean(f, Covariates(G, o.y))))
           [] G.kind = "forest" -> One2(Cat([j \in 1..G.k[1] |-> ForestP(G, S.fit, o.y, j - 1, Alpha)]))
  ELSE LET in1 == IF o.y = <<>> THEN 0 ELSE o.y[1][2]
           comps(L) == Single(MixGiven(G.outs, L, o.c, o.ts)) IN
       CASE G.kind = "twoway" -> One2(Cat(TwoTable[in1 + 1]))
         [] G.kind = "fourway" -> One2(Cat(FourRow(ValAt(o.y, G.ins[1]), ValAt(o.y, G.ins[2]))))
         [] G.kind = "troll" -> One2(Normal(I(ValAt(o.y, G.ins[1])), I(Abs(ValAt(o.y, G.ins[2])) + 1)))
         [] G.kind = "piece" -> comps(PieceMix(G, in1))
         [] G.kind = "dots" -> comps(DotsMix(G))
         [] G.kind = "bare" -> Single(<<[w |-> One, comps |-> [i \in 1..Len(o.ts) |-> Atom(One)]]>>)
         [] G.kind \in {"corr", "xcross"} ->
              LET T == [i \in 1..Len(o.ts) |-> Pos(G.outs, o.ts[i])]
                  cs == IF G.kind = "corr" THEN <<1>> ELSE <<1, 2>> IN
              [ok |-> 1, form |-> "mvn", law |-> [i \in 1..Len(cs) |-> [w |-> One,
                 m |-> MvnMean(<<Zero, Zero>>, Correlated(cs[i], G.par.noise), T, Places(G, o.c), Values(o.c)),
                 s |-> MvnCov(<<Zero, Zero>>, Correlated(cs[i], G.par.noise), T, Places(G, o.c))]]]
         [] OTHER -> Unsettled
(* the score of the recorded rows *)
ModelScore(G, S) ==
  LET D == S.D IN
  CASE G.kind = "kde" -> IF \A i \in 1..Len(D) : D[i].x # <<>>
         THEN [ok |-> 1, p |-> <<Prod([i \in 1..Len(D) |->
                 LET t == D[i].x  vs == [j \in 1..Len(t) |-> t[j][1]] IN MixDensity(vs, KdeMix(G, D, vs), t)])>>]
         ELSE Unsettled
    [] G.kind = "factor" -> IF \A i \in 1..Len(D) : D[i].x # <<>>
         THEN [ok |-> 1, p |-> <<Prod([i \in 1..Len(D) |-> FaDensity(G, S, D[i].x, <<>>)])>>]
         ELSE Unsettled
    [] G.kind = "linreg" -> [ok |-> 1, p |-> <<LinScore(G, D)>>]
    [] G.kind = "forest" -> IF G.par.tree = 1 THEN Unsettled
         ELSE [ok |-> 1, p |-> <<ForestScore(G, S.fit, D, Alpha)>>]
    [] OTHER -> Unsettled

Answer1(G, S, o) ==
  CASE o.k \in {"inc", "uninc"} -> [ok |-> IF Accepts(G, S.D, o) THEN 1 ELSE 0]
    [] o.k = "fit" -> [ok |-> 1, D |-> Len(S.D),
         alpha |-> IF G.kind = "forest" /\ G.par.tree = 0 THEN AlphaLaw(G, S) ELSE <<>>,
         mean |-> IF G.kind = "factor" /\ FullRows(G, S.D) # <<>> THEN FaMean(G, S.D) ELSE <<>>]
    [] o.k = "logpdf" -> Logpdf(G, S, o)
    [] o.k = "simulate" -> Simulate(G, S, o)
    [] o.k = "score" -> ModelScore(G, S)
    [] o.k = "counts" -> [ok |-> 1, c |-> IF G.kind # "forest" THEN <<>>
         ELSE [j \in 1..G.k[1] |-> Cardinality({i \in 1..Len(S.D) : ValAt(S.D[i].x, G.outs[1]) = j - 1})]]
    [] OTHER -> [ok |-> 1]
RECURSIVE Play(_, _, _)
Play(G, S, os) == IF os = <<>> THEN <<>>
                  ELSE <<Answer1(G, S, Head(os))>> \o Play(G, Step(G, S, Head(os)), Tail(os))
=============================================================================
