------------------------------ MODULE MCMixture ------------------------------
(* Design theorems of Mixture.tla over every model with N rows and the      *)
(* columns Cs, in exact rational arithmetic.                                *)
EXTENDS Mixture
CONSTANTS N, Cs, K, Alphas
VARIABLES M, raw

Vals == 0..(K-1)
Cells == [1..N -> Vals \cup {NaN}]
Cols == Sorted(Cs)
ColRec(c, x) == [id |-> c, type |-> IF K = 2 THEN "bernoulli" ELSE "categorical", k |-> K,
                 den |-> 1, lo |-> 0, hi |-> 1,
                 h |-> [alpha |-> Q(1, 1), beta |-> Q(2, 1)], x |-> x]
(* column partitions and row partitions as growth sequences *)
ZVs == RGS(Len(Cols))
Views(zv, zr, al) ==
  [v \in 1..Cardinality(Range(zv)) |->
     [id |-> v, cols |-> SelectSeq(Cols, LAMBDA c : zv[CHOOSE i \in 1..Len(Cols) : Cols[i] = c] = v),
      z |-> zr[v], alpha |-> Q(al, 1)]]
(* two steps, so that TLC's workers share the evaluation of the theorems *)
Make(zv, zr, al, cells) ==
  [n |-> N, cols |-> [i \in 1..Len(Cols) |-> ColRec(Cols[i], cells[Cols[i]])],
   views |-> Views(zv, zr, al), alpha |-> Q(al, 1)]
None == [n |-> 0]
Init == M = None /\ raw \in [zv : ZVs, al : Alphas, cells : [Cs -> Cells]]
Next == /\ M = None
        /\ \E zr \in [1..Cardinality(Range(raw.zv)) -> RGS(N)] :
             M' = Make(raw.zv, zr, raw.al, raw.cells)
        /\ UNCHANGED raw
Spec == Init /\ [][Next]_<<M, raw>>

Eq(a, b) == Rat(a) = Rat(b)
Assignments(S) == [S -> Vals]
AsSeq(f) == LET D == Sorted(DOMAIN f) IN [i \in 1..Len(D) |-> <<D[i], f[D[i]]>>]

SumsToOne == M = None \/
  \A c \in Cs : \A S \in SUBSET (Cs \ {c}) : \A f \in Assignments(S) :
    Eq(Sum([i \in 1..K |-> RowDensity(M, <<<<c, i-1>>>>, AsSeq(f))]), One)
ChainRule == M = None \/
  \A S \in SUBSET Cs : \A f \in Assignments(S) : \A c \in S : \A C \in SUBSET (S \ {c}) :
    LET g == [x \in S \ ({c} \cup C) |-> f[x]]
        h == [x \in C |-> f[x]]
        hc == [x \in C \cup {c} |-> f[x]]
        a == AsSeq([x \in {c} |-> f[x]])
    IN Eq(RowDensity(M, AsSeq([x \in S \ C |-> f[x]]), AsSeq(h)),
          Times(RowDensity(M, a, AsSeq(h)), RowDensity(M, AsSeq(g), AsSeq(hc))))
OtherViews == M = None \/
  \A c \in Cs, d \in Cs : (c # d /\ ViewOf(M, c).id # ViewOf(M, d).id) =>
    \A x, y \in Vals : Eq(RowDensity(M, <<<<c, x>>>>, <<<<d, y>>>>),
                          RowDensity(M, <<<<c, x>>>>, <<>>))
JointZ == M = None \/
  \A i \in 1..Len(M.views) : \A c \in ColsOfView(M.views[i]) : \A x \in Vals :
    LET V == M.views[i]  S == Support(V)  q == <<<<c, x>>>> IN
    /\ Eq(Sum([j \in 1..Len(S) |-> ViewDensityJointZ(M, V, q, <<>>, S[j])]),
          ViewDensity(M, V, q, <<>>))
    /\ Eq(Sum([j \in 1..Len(S) |-> ClusterPosterior(M, V, q)[j][2]]), One)

(* the law of simulated rows has the density of the density query           *)
LawIsDensity == M = None \/
  \A S \in SUBSET Cs : \A f \in Assignments(S) : \A C \in SUBSET S :
    LET h == AsSeq([x \in C |-> f[x]])  g == AsSeq([x \in S \ C |-> f[x]]) IN
    Eq(LawDensity(RowLaw(M, g, h)), RowDensity(M, g, h))

(* the kernels draw from the conditionals of the model score *)
Replace(V) == [M EXCEPT !.views = [i \in 1..Len(M.views) |->
                                     IF M.views[i].id = V.id THEN V ELSE M.views[i]]]
RowGibbs == M = None \/
  \A i \in 1..Len(M.views) : \A r \in 1..N :
    LET V == M.views[i]
        W == RowKernel(M, V, r)
        lab(k) == IF k = Fresh THEN 99 ELSE k
        MM(j) == Replace([V EXCEPT !.z[r] = lab(W[j][1])])
        s == [j \in 1..Len(W) |-> ModelScore(MM(j), <<>>)]
    IN \A j \in 1..Len(W) : Eq(Times(W[j][2], s[1]), Times(W[1][2], s[j]))
Without(V, c) == [V EXCEPT !.cols = SelectSeq(V.cols, LAMBDA d : d # c)]
MoveCol(c, v) == [M EXCEPT !.views = SelectSeq(
   [i \in 1..Len(M.views) |-> LET V == Without(M.views[i], c) IN
      IF V.id = v THEN [V EXCEPT !.cols = Append(V.cols, c)] ELSE V],
   LAMBDA V : V.cols # <<>>)]
ColGibbs == M = None \/
  \A c \in Cs : LET W == ViewWeights(M, c, <<>>, 1) IN
    ~Lone(M, c) =>
      /\ \A j \in 1..Len(W) :
           Eq(Times(W[j][2], ModelScore(MoveCol(c, W[1][1]), <<>>)),
              Times(W[1][2], ModelScore(MoveCol(c, W[j][1]), <<>>)))
      /\ \A z \in RGS(N) :
           LET F == [id |-> 99, cols |-> <<c>>, z |-> z, alpha |-> Q(1, 1)]
               G == [M EXCEPT !.views = Append([i \in 1..Len(M.views) |-> Without(M.views[i], c)], F)]
               w == Prod(<<M.alpha, ColScoreUnder(Col(M, c), z), CrpScore(Q(1, 1), SizesZ(z))>>)
           IN Eq(Times(w, ModelScore(M, <<>>)), 
                 Times(ModelScore(G, <<>>),
                       (CHOOSE p \in Range(W) : p[1] = ViewOf(M, c).id)[2]))
KernelSums == M = None \/
  \A c \in Cs, m \in {1, 2} : LET k == ColKernel(M, c, <<>>, <<Q(1, 1), Q(2, 1)>>, m) IN
    Eq(Plus(Sum([i \in 1..Len(k.existing) |-> k.existing[i][2]]),
            Sum([i \in 1..Len(k.fresh) |-> k.fresh[i][2]])), One)
(* the kernel leaves the posterior invariant: detailed balance between a    *)
(* shared view and every view of its own                                    *)
ColBalance == M = None \/
  \A c \in Cs, m \in {1, 2} : ~Lone(M, c) =>
    LET v == ViewOf(M, c).id
        G == <<Q(1, 1)>>
        out == ColKernel(M, c, <<>>, G, m).fresh
    IN \A j \in 1..Len(out) :
         LET z == out[j][1]
             F == [id |-> 99, cols |-> <<c>>, z |-> z, alpha |-> Q(1, 1)]
             L == [M EXCEPT !.views = Append([i \in 1..Len(M.views) |-> Without(M.views[i], c)], F)]
             back == (CHOOSE p \in Range(ColKernel(L, c, <<>>, G, m).existing) : p[1] = v)[2]
         IN Eq(Times(ModelScore(M, <<>>), out[j][2]), Times(ModelScore(L, <<>>), back))
(* growing the table by a row: the score factorises into the predictive      *)
Predictive == M = None \/
  (N < 2) \/ \A i \in 1..Len(M.views) : \A c \in ColsOfView(M.views[i]) :
    LET V == M.views[i]
        x == Col(M, c).x[N]
        cut == [M EXCEPT !.n = N - 1,
                  !.cols = [j \in 1..Len(M.cols) |-> [M.cols[j] EXCEPT !.x = SubSeq(@, 1, N-1)]],
                  !.views = [j \in 1..Len(M.views) |-> [M.views[j] EXCEPT !.z = SubSeq(@, 1, N-1)]]]
    IN Eq(ColScoreUnder(Col(M, c), V.z),
          Times(ColScoreUnder(Col(cut, c), SubSeq(V.z, 1, N-1)),
                CellPred(Col(cut, c), V.z[N], {r \in 1..(N-1) : V.z[r] = V.z[N]}, x)))
(* relevance by summing the joint over all ways to seat the rows involved    *)
RelevanceIsPosterior == M = None \/
  \A i \in 1..Len(M.views) : \A t \in 1..N : \A Qs \in (SUBSET ((1..N) \ {t})) \ {{}} :
    LET V == M.views[i]
        rest == (1..N) \ (Qs \cup {t})
        Zs == {z \in RGS(N) : /\ \A a, b \in rest : (z[a] = z[b]) <=> (V.z[a] = V.z[b])
                              /\ \A a, b \in Qs : z[a] = z[b]}
        sc(S) == LET L == SetSeq(S) IN
                 Sum([j \in 1..Len(L) |-> ViewScore(M, [V EXCEPT !.z = L[j]])])
        yes == {z \in Zs : \A a \in Qs : z[a] = z[t]}
    IN Eq(Times(Relevance(M, V, t, Qs), sc(Zs)), sc(yes))
SimilaritySane == M = None \/ \A r, s \in 1..N :
  LET p == SimilarityCounts(M, r, s, Cs) IN
  /\ p[2] = Len(M.views) /\ p[1] <= p[2] /\ p = SimilarityCounts(M, s, r, Cs)
  /\ (r = s => p[1] = p[2])
DependenceIsView == M = None \/ \A a, b \in Cs :
  Dependent(M, <<>>, a, b) <=> ViewOf(M, a).id = ViewOf(M, b).id
=============================================================================
