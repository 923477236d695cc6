------------------------------ MODULE CrossCat ------------------------------
(* The state machine of a CrossCat model: what a State is, when it is       *)
(* coherent, which requests are admissible, and how each request may change *)
(* it.  Random choices (which cluster, which view, which value of a         *)
(* hyperparameter) are left open; their laws are in Mixture.tla.            *)
(*                                                                          *)
(* A snapshot S is the complete observable state of a model:                *)
(*   n       number of rows (rows are 0 .. n-1; position r+1 in sequences)  *)
(*   outs    the outputs, in order                                          *)
(*   data    the cells as the dataset reports them, one sequence per output *)
(*   cols    per output: the column record (id, type, x = codes of the      *)
(*           cells, fix = fixed-point weights of additive statistics), tok  *)
(*           (exact cell tokens), hy (hyperparameters), par (uncollapsed    *)
(*           parameters), zr/zi (cluster of every observed/missing cell),   *)
(*           cl (components: cluster, count, statistics)                    *)
(*   zv, nv  column -> view, view -> number of columns (pairs, sorted)      *)
(*   views   per view: id, cols, z (cluster of every row), nk (counts),     *)
(*           alpha                                                          *)
(*   alpha, cd, ci, iters (kernel -> count), diag (checkpoints), hooked     *)
(* Reals appear as tokens: equal tokens iff identical numbers.              *)
EXTENDS Components, TLC
Net == INSTANCE Network

Dom(f)      == {f[i][1] : i \in 1..Len(f)}            \* keys of a pair list
Get(f, k)   == f[CHOOSE i \in 1..Len(f) : f[i][1] = k][2]
Get0(f, k)  == IF k \in Dom(f) THEN Get(f, k) ELSE 0
AsSet(s)    == Range(s)
Pairs(f)    == {<<f[i][1], f[i][2]>> : i \in 1..Len(f)}
Fn(f)       == Len(f) = Cardinality(Dom(f))           \* no key twice
C(S, c)     == S.cols[CHOOSE i \in 1..Len(S.cols) : S.cols[i].id = c]
V(S, v)     == S.views[CHOOSE i \in 1..Len(S.views) : S.views[i].id = v]
ViewIds(S)  == {S.views[i].id : i \in 1..Len(S.views)}
Outs(S)     == AsSet(S.outs)
VOf(S, c)   == V(S, Get(S.zv, c))
Token(v)    == 10000000 + v          \* the variable exposing a view's cluster

Clause(ok, name) == IF ok THEN {} ELSE {name}

(* ======================= coherence (C01, C12) =========================== *)
FixSum(col, j, xs) ==
  ISum([i \in 1..Len(xs) |-> Get(col.fix, xs[i])[j]])
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
BadCode == -99998           \* a cell off the grid of its column's values
StatsOK(col, k, xs, got) ==
  /\ BadCode \notin AsSet(xs)
  /\ got.n = Len(xs)
  /\ (col.type \in (Collapsed \cup {"normal_trunc"})) => got.s = Stats(col, xs).s
  /\ (col.fix # <<>>) => /\ AsSet(xs) \subseteq Dom(col.fix)
                         /\ Len(got.fs) = Len(col.fix[1][2])
                         /\ \A j \in 1..Len(got.fs) : Near(got.fs[j], FixSum(col, j, xs), Len(xs) + 1)

(* a cell counts when it and the inputs of its column (conditional models)  *)
(* are observed                                                             *)
ObsRows(S, col) == {r \in 1..S.n : col.x[r] # NaN /\ \A i \in 1..Len(col.ins) : C(S, col.ins[i]).x[r] # NaN}
ObsIn(S, col, z, k) ==
  LET R == Sorted({r \in ObsRows(S, col) : z[r] = k})
  IN [i \in 1..Len(R) |-> col.x[R[i]]]

ColCoherent(S, i) ==
  LET col == S.cols[i]  W == VOf(S, col.id)  z == W.z  R == ObsRows(S, col) IN
     Clause(Fn(col.zr) /\ Fn(col.zi) /\
            Pairs(col.zr) = {<<r - 1, z[r]>> : r \in R} /\
            Pairs(col.zi) = {<<r - 1, z[r]>> : r \in (1..S.n) \ R},
            "C01:cell membership")
  \cup Clause(/\ Len(col.cl) = Cardinality({col.cl[j].k : j \in 1..Len(col.cl)})
              /\ {col.cl[j].k : j \in 1..Len(col.cl)} \subseteq AsSet(z)
              /\ {z[r] : r \in R} \subseteq {col.cl[j].k : j \in 1..Len(col.cl)},
              "C01:components of the clusters")
  \cup Clause(\A j \in 1..Len(col.cl) :
                StatsOK(col, col.cl[j].k, ObsIn(S, col, z, col.cl[j].k), col.cl[j]),
              "C01:sufficient statistics")

Shape(S) ==
     Clause(/\ Len(S.outs) = Cardinality(Outs(S)) /\ S.outs # <<>>
            /\ [i \in 1..Len(S.cols) |-> S.cols[i].id] = S.outs
            /\ \A i \in 1..Len(S.cols) : Len(S.cols[i].x) = S.n,
            "C02:dataset has one cell per row and output")
  \cup Clause(Fn(S.zv) /\ Dom(S.zv) = Outs(S), "C01:every column in exactly one view")
  \cup Clause(/\ Len(S.views) = Cardinality(ViewIds(S))
              /\ ViewIds(S) = {S.zv[i][2] : i \in 1..Len(S.zv)},
              "C01:views are those in use")
  \cup Clause(\A i \in 1..Len(S.views) : Len(S.views[i].z) = S.n,
              "C01:every row in exactly one cluster of each view")

Deep(S) ==
     Clause(\A i \in 1..Len(S.views) :
               AsSet(S.views[i].cols) = {c \in Outs(S) : Get(S.zv, c) = S.views[i].id}
               /\ Len(S.views[i].cols) = Cardinality(AsSet(S.views[i].cols)),
            "C01:columns of a view")
  \cup Clause(Fn(S.nv) /\ Pairs(S.nv) = {<<v, Cardinality({c \in Outs(S) : Get(S.zv, c) = v})>> : v \in ViewIds(S)},
              "C01:view table counts")
  \cup Clause(\A i \in 1..Len(S.views) : LET W == S.views[i] IN
               Fn(W.nk) /\ Pairs(W.nk) = {<<k, Cardinality({r \in 1..S.n : W.z[r] = k})>> : k \in AsSet(W.z)},
              "C01:cluster table counts")
  \cup UNION {ColCoherent(S, i) : i \in 1..Len(S.cols)}

Constrained(S) ==
  Clause(/\ \A i \in 1..Len(S.cd) : \A a, b \in AsSet(S.cd[i]) \cap Outs(S) : Get(S.zv, a) = Get(S.zv, b)
         /\ \A i \in 1..Len(S.ci) : LET a == S.ci[i][1]  b == S.ci[i][2] IN
              (a \in Outs(S) /\ b \in Outs(S)) => Get(S.zv, a) # Get(S.zv, b),
         "C12:constraints hold")

Flags(S) == Clause(S.composite = (IF S.hooked # <<>> \/ S.conditional = 1 THEN 1 ELSE 0),
                   IF S.conditional = 1 THEN "C01:conditional columns are known"
                   ELSE "C15:composed models are known")
Coherent(S) == LET s == Shape(S) IN IF s # {} THEN s ELSE Deep(S) \cup Constrained(S) \cup Flags(S)

(* ======================= comparing snapshots ============================ *)
Comember(z, z2, R) == \A a, b \in R : (z[a] = z[b]) <=> (z2[a] = z2[b])
DataOf(S) == [i \in 1..Len(S.cols) |-> <<S.cols[i].id, S.cols[i].tok>>]
TypesOf(S) == {<<S.cols[i].id, S.cols[i].type, S.cols[i].k>> : i \in 1..Len(S.cols)}
SameData(S, T) == S.outs = T.outs /\ DataOf(S) = DataOf(T) /\ S.n = T.n
SameParts(S, T) == Pairs(S.zv) = Pairs(T.zv) /\ ViewIds(S) = ViewIds(T)
                   /\ \A v \in ViewIds(S) : V(S, v).z = V(T, v).z
Hy(S) == {<<S.cols[i].id, S.cols[i].hy>> : i \in 1..Len(S.cols)}
ParSet(S) == {<<S.cols[i].id, AsSet(S.cols[i].par)>> : i \in 1..Len(S.cols)}
ViewAlphas(S) == {<<S.views[i].id, S.views[i].alpha>> : i \in 1..Len(S.views)}
Iters(S) == {p \in Pairs(S.iters) : p[2] # 0}
(* components with something in them; an empty component is no state        *)
Comps(S) == {<<S.cols[i].id, {<<S.cols[i].cl[j].k, S.cols[i].cl[j].n, S.cols[i].cl[j].s>> :
               j \in {q \in 1..Len(S.cols[i].cl) : S.cols[i].cl[q].n > 0}}>> : i \in 1..Len(S.cols)}
(* the parts in which two models differ *)
Differ(S, T) ==
     Clause(SameData(S, T), "dataset") \cup Clause(SameParts(S, T), "partitions")
  \cup Clause(TypesOf(S) = TypesOf(T), "column types")
  \cup Clause(Hy(S) = Hy(T), "hyperparameters") \cup Clause(ParSet(S) = ParSet(T), "component parameters")
  \cup Clause(Comps(S) = Comps(T), "sufficient statistics")
  \cup Clause(S.alpha = T.alpha /\ ViewAlphas(S) = ViewAlphas(T), "concentrations")
  \cup Clause(Iters(S) = Iters(T), "iteration counters") \cup Clause(S.diag = T.diag, "diagnostics")
  \cup Clause(S.cd = T.cd /\ S.ci = T.ci, "constraints")
  \cup Clause(S.hooked = T.hooked, "composed models")
Tag(pre, names) == {pre \o x : x \in names}

(* ======================= composed models (C15) ========================== *)
(* hooked models as the snapshot has them: <<token, outputs, -1, inputs>>   *)
Cut(h) == CHOOSE i \in 2..Len(h) : h[i] = -1
HOuts(h) == SubSeq(h, 2, Cut(h) - 1)
HIns(h) == SubSeq(h, Cut(h) + 1, Len(h))
HTokens(S) == {S.hooked[i][1] : i \in 1..Len(S.hooked)}
HProduced(S) == UNION {AsSet(HOuts(S.hooked[i])) : i \in 1..Len(S.hooked)}
(* the network of a model: its views, with the variable exposing the        *)
(* cluster, and the composed models                                         *)
NetworkOf(S) ==
     [i \in 1..Len(S.views) |-> <<Append(S.views[i].cols, Token(S.views[i].id)), <<>>>>]
  \o [i \in 1..Len(S.hooked) |-> <<HOuts(S.hooked[i]), HIns(S.hooked[i])>>]

(* ======================= admissible requests (C02) ====================== *)
(* a cell assignment is <<column, token, code, numerator, denominator>>     *)
InSup(col, a) == a[2] = NaN \/ InSupport(col, a[4], a[5])
ColTransitionOK(S) == S.cd = <<>> /\ S.conditional = 0
Admissible(S, o) ==
  CASE o.op = "incorporate" ->
         /\ o.row = S.n /\ ~o.inputs
         /\ \A i \in 1..Len(o.obs) : LET a == o.obs[i] IN
              a[1] \in Outs(S) /\ a[2] # NaN /\ InSup(C(S, a[1]), a)
         /\ \A i \in 1..Len(o.clus) : o.clus[i][1] \in ViewIds(S)
    [] o.op = "unincorporate" -> o.row = S.n - 1 /\ S.n > 1
    [] o.op = "force_cell" ->
         /\ 0 <= o.row /\ o.row < S.n
         /\ \A i \in 1..Len(o.obs) : LET a == o.obs[i] IN
              a[1] \in Outs(S) /\ C(S, a[1]).x[o.row + 1] = NaN /\ InSup(C(S, a[1]), a)
    [] o.op = "incorporate_dim" ->
         /\ Len(o.t) = S.n /\ Len(o.outputs) = 1 /\ o.outputs[1] \notin Outs(S) \cup HProduced(S) /\ ~o.inputs
         /\ \A i \in 1..Len(o.t) : InSup(o.col, o.t[i])
         /\ o.v = -1 => ColTransitionOK(S)
    [] o.op = "unincorporate_dim" -> o.c \in Outs(S) /\ Len(S.outs) > 1
    [] o.op = "update_cctype" -> o.c \in Outs(S) /\ \A i \in 1..Len(o.t) : InSup(o.col, o.t[i])
    [] o.op = "transition" -> /\ AsSet(o.cols) \subseteq Outs(S)
                              /\ ("columns" \in AsSet(o.kernels)) => ColTransitionOK(S)
    [] o.op = "compose" -> Net!Valid(Append(NetworkOf(S), <<o.outs, o.ins>>))
    [] o.op = "decompose" -> o.token \in HTokens(S)
    [] o.op = "foreign" -> o.allcols \/ AsSet(o.cols) \cap Outs(S) = {}
    [] o.op \in {"query", "reload", "idle", "split"} -> TRUE
    [] OTHER -> FALSE

(* ======================= effects ======================================== *)
(* what the dataset must be after an admissible request *)
ExpectOuts(S, o) ==
  CASE o.op = "incorporate_dim" -> Append(S.outs, o.outputs[1])
    [] o.op = "unincorporate_dim" -> SelectSeq(S.outs, LAMBDA c : c # o.c)
    [] OTHER -> S.outs
Assigned(o, c) == LET J == {i \in 1..Len(o.obs) : o.obs[i][1] = c} IN
                  IF J = {} THEN NaN ELSE o.obs[CHOOSE i \in J : TRUE][2]
ExpectTok(S, o, c) ==
  CASE o.op = "incorporate" -> Append(C(S, c).tok, Assigned(o, c))
    [] o.op = "unincorporate" -> SubSeq(C(S, c).tok, 1, S.n - 1)
    [] o.op = "force_cell" -> IF Assigned(o, c) = NaN THEN C(S, c).tok
                              ELSE [C(S, c).tok EXCEPT ![o.row + 1] = Assigned(o, c)]
    [] o.op = "incorporate_dim" -> IF c = o.outputs[1] THEN [i \in 1..Len(o.t) |-> o.t[i][2]]
                                   ELSE C(S, c).tok
    [] OTHER -> C(S, c).tok
DataEffect(S, o, T) ==
  LET outs == ExpectOuts(S, o) IN
  Clause(T.outs = outs /\ DataOf(T) = [i \in 1..Len(outs) |-> <<outs[i], ExpectTok(S, o, outs[i])>>],
         "C02:dataset")

Kept(S, o, T) ==          \* settings no request but its own changes
     Clause(TypesOf(T) = (CASE o.op = "update_cctype" ->
                {p \in TypesOf(S) : p[1] # o.c} \cup {<<o.c, o.col.type, o.col.k>>}
              [] o.op = "incorporate_dim" -> TypesOf(S) \cup {<<o.outputs[1], o.col.type, o.col.k>>}
              [] o.op = "unincorporate_dim" -> {p \in TypesOf(S) : p[1] # o.c}
              [] OTHER -> TypesOf(S)), "C01:column types")
  \cup Clause(CASE o.op = "compose" ->
                   \E t \in HTokens(T) \ HTokens(S) :
                     AsSet(T.hooked) = AsSet(S.hooked) \cup {<<t>> \o o.outs \o <<-1>> \o o.ins}
                [] o.op = "decompose" -> AsSet(T.hooked) = {h \in AsSet(S.hooked) : h[1] # o.token}
                [] OTHER -> T.hooked = S.hooked, "C15:composed models")
  \cup Clause(\A i \in 1..Len(S.cd) : Cardinality(AsSet(S.cd[i]) \cap AsSet(T.outs)) > 1 =>
                \E j \in 1..Len(T.cd) : AsSet(S.cd[i]) \cap AsSet(T.outs) \subseteq AsSet(T.cd[j]),
              "C12:dependence blocks kept")
  \cup Clause(\A i \in 1..Len(S.ci) : AsSet(S.ci[i]) \subseteq AsSet(T.outs) =>
                \E j \in 1..Len(T.ci) : AsSet(T.ci[j]) = AsSet(S.ci[i]),
              "C12:independent pairs kept")

(* columns other than `moved` keep their views, views keep their rows       *)
ViewsKept(S, T, moved) ==
  LET keep == (Outs(S) \cap Outs(T)) \ moved IN
     Clause(\A a, b \in keep : (Get(S.zv, a) = Get(S.zv, b)) <=> (Get(T.zv, a) = Get(T.zv, b)),
            "C01:unnamed columns stay together")
RowsKept(S, T, moved, R) ==     \* rows R of the views with a kept column
  LET keep == (Outs(S) \cap Outs(T)) \ moved IN
     Clause(T.n = S.n /\ \A c \in keep : Comember(VOf(S, c).z, VOf(T, c).z, R), "C01:unnamed rows stay together")

HypersKept(S, T, free) ==
  Clause(\A c \in (Outs(S) \cap Outs(T)) \ free : C(S, c).hy = C(T, c).hy,
         "C22:hyperparameters of columns not named")
Occupied(par) == {p \in AsSet(par) : p[1] # -1}      \* -1: the parameters of a fresh cluster
ParamsKept(S, T, free) ==
  Clause(\A c \in (Outs(S) \cap Outs(T)) \ free : Occupied(C(S, c).par) = Occupied(C(T, c).par),
         "C22:parameters of columns not named")
AlphasKept(S, T, moved, free) ==       \* free: views whose alpha may change
  Clause(\A c \in (Outs(S) \cap Outs(T)) \ moved :
           Get(S.zv, c) \in free \/ VOf(S, c).alpha = VOf(T, c).alpha,
         "C22:concentration of views not named")
DiagKept(S, T) == Clause(T.diag = S.diag, "C22:checkpoints")
OnlyIters(S, T, names) ==
  Clause(\A k \in (Dom(S.iters) \cup Dom(T.iters)) \ names : Get0(S.iters, k) = Get0(T.iters, k),
         "C22:counters of kernels not requested")

IncorporateEffect(S, o, T) ==
     Clause(Pairs(S.zv) = Pairs(T.zv) /\ ViewIds(S) = ViewIds(T), "C01:columns keep their views")
  \cup Clause(\A v \in ViewIds(S) \cap ViewIds(T) : T.n = S.n + 1 /\ SubSeq(V(T, v).z, 1, S.n) = V(S, v).z,
              "C01:observed rows keep their clusters")
  \cup Clause(\A i \in 1..Len(o.clus) : o.clus[i][1] \in ViewIds(T) /\ T.n = S.n + 1 /\ V(T, o.clus[i][1]).z[S.n + 1] = o.clus[i][2],
              "C01:the given cluster is used")
  \cup HypersKept(S, T, {}) \cup AlphasKept(S, T, {}, {}) \cup DiagKept(S, T)
  \cup Clause(S.alpha = T.alpha, "C22:column concentration") \cup OnlyIters(S, T, {})

UnincorporateEffect(S, o, T) ==
     Clause(Pairs(S.zv) = Pairs(T.zv) /\ ViewIds(S) = ViewIds(T), "C01:columns keep their views")
  \cup Clause(\A v \in ViewIds(S) \cap ViewIds(T) : V(T, v).z = SubSeq(V(S, v).z, 1, S.n - 1),
              "C01:remaining rows keep their clusters")
  \cup HypersKept(S, T, {}) \cup AlphasKept(S, T, {}, {}) \cup DiagKept(S, T)
  \cup Clause(S.alpha = T.alpha, "C22:column concentration") \cup OnlyIters(S, T, {})

ForceEffect(S, o, T) ==
     Clause(SameParts(S, T), "C01:partitions") \cup HypersKept(S, T, {}) \cup ParamsKept(S, T, {})
  \cup AlphasKept(S, T, {}, {}) \cup DiagKept(S, T) \cup OnlyIters(S, T, {})
  \cup Clause(S.alpha = T.alpha, "C22:column concentration")

AddDimEffect(S, o, T) ==
  LET c == o.outputs[1] IN
     Clause(\A a \in Outs(S) : Get(S.zv, a) = Get(T.zv, a), "C01:columns keep their views")
  \cup Clause(\A v \in ViewIds(S) \cap ViewIds(T) : V(S, v).z = V(T, v).z, "C01:rows keep their clusters")
  \cup Clause(ViewIds(S) \subseteq ViewIds(T) /\ ViewIds(T) \subseteq ViewIds(S) \cup {Get(T.zv, c)}, "C01:views")
  \cup Clause(o.v # -1 => Get(T.zv, c) = o.v, "C01:the given view is used")
  \cup HypersKept(S, T, {}) \cup ParamsKept(S, T, {}) \cup AlphasKept(S, T, {}, {}) \cup DiagKept(S, T)
  \cup Clause(S.alpha = T.alpha, "C22:column concentration")
  \cup OnlyIters(S, T, {"columns", "column_hypers"})

DelDimEffect(S, o, T) ==
     Clause(\A a \in Outs(S) \ {o.c} : Get(S.zv, a) = Get(T.zv, a), "C01:columns keep their views")
  \cup Clause(\A v \in ViewIds(S) \cap ViewIds(T) : V(S, v).z = V(T, v).z, "C01:rows keep their clusters")
  \cup HypersKept(S, T, {}) \cup ParamsKept(S, T, {}) \cup AlphasKept(S, T, {}, {}) \cup DiagKept(S, T)
  \cup Clause(S.alpha = T.alpha, "C22:column concentration") \cup OnlyIters(S, T, {})

(* everything but the set of composed models stays                          *)
HookEffect(S, o, T) ==
  Tag("C15:composing changed ", Differ([S EXCEPT !.hooked = <<>>], [T EXCEPT !.hooked = <<>>]))
TypeEffect(S, o, T) ==
     Clause(SameParts(S, T), "C01:partitions") \cup HypersKept(S, T, {o.c}) \cup ParamsKept(S, T, {o.c})
  \cup AlphasKept(S, T, {}, {}) \cup DiagKept(S, T)
  \cup Clause(S.alpha = T.alpha, "C22:column concentration")
  \cup OnlyIters(S, T, {"column_params", "column_hypers", "column_grids"})

(* ---- inference --------------------------------------------------------- *)
(* o.kernels, o.n, o.cols/o.views/o.rows with o.allcols etc., o.check (0 =  *)
(* none), o.timed: limited by time                                          *)
Named(o, S) == IF o.allcols THEN Outs(S) ELSE AsSet(o.cols)
NamedViews(o, S) == IF ~o.allviews THEN AsSet(o.views)
                    ELSE IF o.allcols THEN ViewIds(S) ELSE {Get(S.zv, c) : c \in AsSet(o.cols)}
NamedRows(o, S) == IF o.allrows THEN 1..S.n ELSE {r + 1 : r \in AsSet(o.rows)}
RunsOf(o, k) == o.n * Cardinality({i \in 1..Len(o.kernels) : o.kernels[i] = k})
Multi(o) == o.n * Len(o.kernels) > 1
TransitionEffect(S, o, T) ==
  LET K == AsSet(o.kernels)
      mc == IF "columns" \in K THEN Named(o, S) ELSE {}
      \* with column moves the views named by columns change on the way
      fv == IF mc # {} /\ ~o.allcols THEN ViewIds(S) ELSE NamedViews(o, S)
      rv == IF "rows" \in K THEN fv ELSE {}
      named == {c \in Outs(S) : Get(S.zv, c) \in rv}
      done(k) == Get0(T.iters, k) - Get0(S.iters, k)
      counted == {k \in K : ~(k = "rows" /\ S.n = 1)}
  IN Clause(\A k \in K : o.timed \/ (k = "rows" /\ S.n = 1)
              \/ Get0(T.iters, k) = Get0(S.iters, k) + RunsOf(o, k), "C22:iterations recorded")
  \cup OnlyIters(S, T, K)
  \cup (IF o.timed THEN
          Clause(\A i, j \in 1..Len(o.kernels) : (i < j /\ {o.kernels[i], o.kernels[j]} \subseteq counted) =>
                   done(o.kernels[i]) - done(o.kernels[j]) \in {0, 1}, "C22:kernels run in rounds")
          \cup Clause(\A k \in K : done(k) \in 0..o.n, "C22:at most N rounds")
        ELSE {})
  \cup Clause("alpha" \in K \/ S.alpha = T.alpha, "C22:column concentration")
  \cup AlphasKept(S, T, mc, IF "view_alphas" \in K THEN fv ELSE {})
  \cup HypersKept(S, T, IF "column_hypers" \in K THEN Named(o, S) ELSE {})
  \cup ParamsKept(S, T, (IF "column_params" \in K THEN Named(o, S) ELSE {}) \cup mc \cup named)
  \cup ViewsKept(S, T, mc)
  \cup RowsKept(S, T, mc \cup named, 1..S.n)
  \cup RowsKept(S, T, mc, (1..S.n) \ (IF "rows" \in K THEN NamedRows(o, S) ELSE {}))
  \cup (IF mc = {} THEN Clause(Pairs(S.zv) = Pairs(T.zv), "C01:columns keep their views") ELSE {})
  \cup Clause(IF o.check = 0 THEN T.diag = S.diag
              ELSE IF ~o.timed THEN Len(T.diag) = Len(S.diag) + o.n \div o.check
              ELSE counted = {} \/ \E d \in (IF counted = K THEN {0} ELSE {0, 1}) :
                     \* an uncounted kernel may have been the one cut off
                     Len(T.diag) = Len(S.diag) + (Min({done(k) : k \in counted}) - d) \div o.check,
              "C22:number of checkpoints")
  \cup Clause(SubSeq(T.diag, 1, Len(S.diag)) = S.diag, "C22:earlier checkpoints")
  \cup (IF o.check > 0 /\ ~o.timed /\ o.n > 0 /\ o.n % o.check = 0 /\ Len(T.diag) > 0 THEN
          LET d == T.diag[Len(T.diag)] IN
          Clause(d.alpha = T.alpha /\ Pairs(d.zv) = Pairs(T.zv) /\ d.score = T.score,
                 "C22:checkpoint describes the model")
        ELSE {})
  \cup (IF o.check > 0 /\ ~o.timed /\ mc = {} THEN
          Clause(\A i \in (Len(S.diag) + 1)..Len(T.diag) : Pairs(T.diag[i].zv) = Pairs(S.zv)
                   /\ ("alpha" \in K \/ T.diag[i].alpha = S.alpha),
                 "C22:checkpoint describes the model")
        ELSE {})

(* Models composed with S: o.tokens in use, o.cols the variables named      *)
(* (o.allcols: every composed one), o.n rounds, o.secs seconds (-1: no      *)
(* limit) where every kernel takes one second, o.runs observed runs         *)
ForeignNamed(S, o) == IF o.allcols THEN HTokens(S)
                      ELSE {S.hooked[i][1] : i \in {j \in 1..Len(S.hooked) :
                              AsSet(HOuts(S.hooked[j])) \cap AsSet(o.cols) # {}}}
ForeignEffect(S, o, T) ==
  LET K == ForeignNamed(S, o)
      k == Cardinality(K)
      total == IF o.n = -1 THEN o.secs ELSE IF o.secs = -1 THEN o.n * k
               ELSE Min({o.n * k, o.secs})
      runs(t) == Get0(o.runs, t)
      names == {o.names[i][2] : i \in 1..Len(o.names)}
  IN Tag("C22:transitioning composed models changed ",
         Differ([S EXCEPT !.iters = <<>>], [T EXCEPT !.iters = <<>>]))
  \cup Clause(\A t \in HTokens(S) \ K : runs(t) = 0, "C22:composed models not requested")
  \cup Clause(K = {} \/ ISum([i \in 1..Len(o.runs) |-> o.runs[i][2]]) = total, "C22:runs of composed models")
  \cup Clause(\A s, t \in K : runs(s) - runs(t) \in {-1, 0, 1}, "C22:composed models run in rounds")
  \cup Clause(\A i \in 1..Len(o.names) :
                 Get0(T.iters, o.names[i][2]) = Get0(S.iters, o.names[i][2]) + runs(o.names[i][1]),
              "C22:iterations recorded")
  \cup OnlyIters(S, T, names)

(* What may change when o runs once, as <<kind, item>>, and what did         *)
\* beta and normal_trunc columns have fixed hyperparameters
Varied(col) == col.type \notin {"beta", "normal_trunc"} /\ Cardinality(AsSet(col.tok) \ {NaN}) > 1      \* else its grid may be one point
Movable(S, o) ==
  LET K == AsSet(o.kernels) IN
     (IF "alpha" \in K /\ Len(S.outs) > 1 THEN {<<"alpha", 0, 0>>} ELSE {})
  \cup (IF "view_alphas" \in K /\ S.n > 1 THEN {<<"view", v, 0>> : v \in NamedViews(o, S)} ELSE {})
  \cup (IF "column_hypers" \in K THEN {<<"hypers", c, 0>> : c \in {d \in Named(o, S) : Varied(C(S, d))}} ELSE {})
  \cup (IF "column_params" \in K THEN {<<"params", c, 0>> : c \in {d \in Named(o, S) : Occupied(C(S, d).par) # {}}} ELSE {})
  \cup (IF "rows" \in K /\ S.n > 1 THEN {<<"row", v, r>> : v \in NamedViews(o, S), r \in NamedRows(o, S)} ELSE {})
  \cup (IF "columns" \in K /\ Len(S.outs) > 1 THEN {<<"column", c, 0>> : c \in Named(o, S)} ELSE {})
Moved(S, T) ==
     (IF S.alpha # T.alpha THEN {<<"alpha", 0, 0>>} ELSE {})
  \cup {<<"view", v, 0>> : v \in {w \in ViewIds(S) \cap ViewIds(T) : V(S, w).alpha # V(T, w).alpha}}
  \cup {<<"hypers", c, 0>> : c \in {d \in Outs(S) \cap Outs(T) : C(S, d).hy # C(T, d).hy}}
  \cup {<<"params", c, 0>> : c \in {d \in Outs(S) \cap Outs(T) : Occupied(C(S, d).par) # Occupied(C(T, d).par)}}
  \cup UNION {{<<"row", v, r>> : r \in {q \in 1..S.n : V(S, v).z[q] # V(T, v).z[q]}} :
               v \in ViewIds(S) \cap ViewIds(T)}
  \cup {<<"column", c, 0>> : c \in {d \in Outs(S) : Get(S.zv, d) # Get(T.zv, d)}}
(* o ran once from S in many ways, with outcomes Ts                          *)
NeverMoved(S, o, Ts) == Movable(S, o) \ UNION {Moved(S, Ts[i]) : i \in 1..Len(Ts)}

Effect(S, o, T) ==
  CASE o.op = "incorporate" -> IncorporateEffect(S, o, T)
    [] o.op = "unincorporate" -> UnincorporateEffect(S, o, T)
    [] o.op = "force_cell" -> ForceEffect(S, o, T)
    [] o.op = "incorporate_dim" -> AddDimEffect(S, o, T)
    [] o.op = "unincorporate_dim" -> DelDimEffect(S, o, T)
    [] o.op = "update_cctype" -> TypeEffect(S, o, T)
    [] o.op = "transition" -> TransitionEffect(S, o, T)
    [] o.op \in {"compose", "decompose"} -> HookEffect(S, o, T)
    [] o.op = "foreign" -> ForeignEffect(S, o, T)
    [] o.op = "split" -> Tag("C22:one call differs from its iterations in ", Differ(S, T))
    [] o.op = "query" -> Tag("C10:a query changed ", Differ(S, T))
    [] o.op = "idle" -> Tag("C11:shared state: ", Differ(S, T))
    [] o.op = "reload" -> Tag("C11:reloading changed ", Differ(S, T))
    [] OTHER -> {}

(* ======================= verdicts ======================================= *)
(* One observed step: the request, whether it was accepted, and the state   *)
(* before and after.                                                        *)
(* cohS, cohT: Coherent(S), Coherent(T).  A broken model is reported by the *)
(* step that broke it; later steps of that history are not judged.          *)
Area(o) == IF o.op \in {"compose", "decompose"} THEN "C15:" ELSE "C02:"
Verdict(S, cohS, o, ok, T, cohT) ==
  LET shape == Shape(T) IN
  IF cohS # {} THEN {}
  ELSE IF shape # {} THEN
    (IF o.op = "query" THEN Tag("C10:a query broke ", shape)
     ELSE IF ok /\ Admissible(S, o) THEN shape ELSE Tag("C02:after a refused request: ", shape))
  ELSE IF o.op = "query" THEN Effect(S, o, T) \cup Tag("C10:a query broke ", cohT)
  ELSE IF ~ok THEN
    (IF Admissible(S, o) THEN {Area(o) \o "admissible request refused"} ELSE {})
    \cup Tag(Area(o) \o "a refused request changed ", Differ(S, T))
    \cup Tag("C02:after a refused request: ", cohT)
  ELSE IF ~Admissible(S, o) THEN {Area(o) \o "inadmissible request accepted"}
  ELSE cohT \cup DataEffect(S, o, T) \cup Kept(S, o, T) \cup Effect(S, o, T)

(* Construction: the arguments o, the model T.                              *)
InitOK(o) ==
  LET all == AsSet(o.outs) IN
  /\ Len(o.outs) = Len(o.cols) /\ Cardinality(all) = Len(o.outs) /\ \A c \in all : c >= 0
  /\ ~o.inputs /\ ~o.rowcons
  /\ (o.zv # <<>> => Dom(o.zv) = all /\ Fn(o.zv))
  /\ (o.zrv # <<>> => o.zv # <<>> /\ Dom(o.zrv) = {o.zv[i][2] : i \in 1..Len(o.zv)})
  /\ \A i \in 1..Len(o.cd) : AsSet(o.cd[i]) \subseteq all /\ Len(o.cd[i]) > 1
                             /\ Len(o.cd[i]) = Cardinality(AsSet(o.cd[i]))
  /\ \A i, j \in 1..Len(o.cd) : i # j => AsSet(o.cd[i]) \cap AsSet(o.cd[j]) = {}
  /\ \A i \in 1..Len(o.ci) : Len(o.ci[i]) = 2 /\ AsSet(o.ci[i]) \subseteq all
                             /\ o.ci[i][1] # o.ci[i][2]
                             /\ \A j \in 1..Len(o.cd) : ~(AsSet(o.ci[i]) \subseteq AsSet(o.cd[j]))
  /\ (o.zv # <<>> =>
        /\ \A i \in 1..Len(o.cd) : \A a, b \in AsSet(o.cd[i]) : Get(o.zv, a) = Get(o.zv, b)
        /\ \A i \in 1..Len(o.ci) : Get(o.zv, o.ci[i][1]) # Get(o.zv, o.ci[i][2]))
  /\ ((o.zv = <<>> /\ (o.cd # <<>> \/ o.ci # <<>>)) => o.outs = [i \in 1..Len(o.outs) |-> i - 1])
  /\ \A i \in 1..Len(o.cols) : \A j \in 1..Len(o.cols[i].cells) : InSup(o.cols[i], o.cols[i].cells[j])
VerdictInit(o, ok, T, cohT) ==
  IF ~ok THEN (IF InitOK(o) THEN {"C02:admissible model refused"} ELSE {})
  ELSE IF ~InitOK(o) THEN
    {IF o.bad = "constraints" THEN "C12:inadmissible constraints accepted" ELSE "C02:inadmissible model accepted"}
  ELSE IF Shape(T) # {} THEN Shape(T)
  ELSE cohT
    \cup Clause(T.outs = o.outs /\ DataOf(T) = [i \in 1..Len(o.outs) |-> <<o.outs[i],
                  [j \in 1..Len(o.cols[i].cells) |-> o.cols[i].cells[j][2]]>>], "C02:dataset")
    \cup Clause(o.zv = <<>> \/ Pairs(T.zv) = Pairs(o.zv), "C01:the given column partition is used")
    \cup Clause(o.zrv = <<>> \/ \A v \in Dom(o.zrv) : v \in ViewIds(T) /\ V(T, v).z = Get(o.zrv, v),
                "C01:the given row partition is used")
    \cup Clause(TypesOf(T) = {<<o.cols[i].id, o.cols[i].type, o.cols[i].k>> : i \in 1..Len(o.cols)},
                "C01:column types")
    \cup Clause(\A i \in 1..Len(o.cd) : AsSet(o.cd[i]) \in {AsSet(T.cd[j]) : j \in 1..Len(T.cd)},
                "C12:dependence blocks kept")
    \cup Clause(\A i \in 1..Len(o.ci) : AsSet(o.ci[i]) \in {AsSet(T.ci[j]) : j \in 1..Len(T.ci)},
                "C12:independent pairs kept")
    \cup Clause(T.iters = <<>> \/ \A i \in 1..Len(T.iters) : T.iters[i][2] = 0, "C22:counters start at zero")
    \cup Clause(T.diag = <<>>, "C22:checkpoints")
=============================================================================
