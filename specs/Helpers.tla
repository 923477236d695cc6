------------------------------- MODULE Helpers -------------------------------
(* Definitions the helper functions are held to: partitions and their laws   *)
(* under constraints, weights in log space, dummy codes, schemas, partitioned *)
(* queries.  Customers are 0..N-1, a partition is a sequence of table labels. *)
EXTENDS Expr

(* ---- partitions ----------------------------------------------------------- *)
Tables(z) == Range(z)
Size(z, k) == Count(z, k)
(* labels in order of first appearance *)
Canon(z) ==
  [i \in 1..Len(z) |->
     LET first(k) == Min({j \in 1..Len(z) : z[j] = k})
     IN Cardinality({k \in Tables(z) : first(k) < first(z[i])})]
RECURSIVE Partitions(_)
Partitions(n) == IF n = 0 THEN {<<>>}
                 ELSE UNION {{Append(z, k) : k \in 0..Cardinality(Tables(z))} : z \in Partitions(n - 1)}
Rise(a, n) == Prod([i \in 1..n |-> Plus(a, I(i - 1))])
(* log P of table sizes under the Chinese restaurant process                  *)
SizesProb(sizes, a) ==
  Div(Prod(<<Pow(a, I(Len(sizes)))>> \o [k \in 1..Len(sizes) |-> Gam(I(sizes[k]))]), Rise(a, ISum(sizes)))
SizesOf(z) == LET T == Sorted(Tables(z)) IN [i \in 1..Len(T) |-> Size(z, T[i])]
CrpProb(z, a) == SizesProb(SizesOf(z), a)
(* the same without the factor that does not depend on a *)
SizesUnorm(n, k, a) == Div(Pow(a, I(k)), Rise(a, n))
(* predictive weights of a new customer, m auxiliary tables *)
Fresh(sizes, a, m) ==
  LET n == Plus(I(ISum(sizes)), a) IN
  [k \in 1..(Len(sizes) + m) |-> Div(IF k <= Len(sizes) THEN I(sizes[k]) ELSE Div(a, I(m)), n)]
(* tables and weights for moving customer i (0: a new one) of z *)
GibbsTables(z, i, m) ==
  LET T == Sorted(Tables(z))
      alone == i > 0 /\ (IF i > 0 THEN Size(z, z[i]) = 1 ELSE FALSE)
      top == IF T = <<>> THEN -1 ELSE T[Len(T)]
  IN T \o [j \in 1..(IF alone THEN m - 1 ELSE m) |-> top + j]
GibbsWeights(z, i, a, m) ==
  LET T == GibbsTables(z, i, m) IN
  [j \in 1..Len(T) |->
     LET n == Size(z, T[j]) - (IF i > 0 THEN (IF z[i] = T[j] THEN 1 ELSE 0) ELSE 0)
     IN IF n = 0 THEN Div(a, I(m)) ELSE I(n)]

(* ---- dependence and independence ------------------------------------------ *)
(* con: [cd: blocks, ci: pairs, rd: <<customer, blocks>>.., ri: <<customer, pairs>>..] *)
Blocks(rs, c) == LET S == {i \in 1..Len(rs) : rs[i][1] = c} IN IF S = {} THEN <<>> ELSE rs[Min(S)][2]
Has(rs, c) == \E i \in 1..Len(rs) : rs[i][1] = c
InRange(n, c) == c >= 0 /\ (n < 0 \/ c < n)         \* n < 0: any number of customers
ValidDep(n, cd, ci) ==
  /\ \A i \in 1..Len(cd) : Len(cd[i]) > 1 /\ \A j \in 1..Len(cd[i]) : InRange(n, cd[i][j])
  /\ \A i, k \in 1..Len(cd) : \A j \in 1..Len(cd[i]) : \A l \in 1..Len(cd[k]) :
        <<i, j>> # <<k, l>> => cd[i][j] # cd[k][l]
  /\ \A p \in 1..Len(ci) : Len(ci[p]) = 2
  /\ \A p \in 1..Len(ci) : /\ InRange(n, ci[p][1]) /\ InRange(n, ci[p][2])
                           /\ ci[p][1] # ci[p][2]
                           /\ \A i \in 1..Len(cd) : ~(ci[p][1] \in Range(cd[i]) /\ ci[p][2] \in Range(cd[i]))
Enemies(ci, a, b) == \E p \in 1..Len(ci) : {ci[p][1], ci[p][2]} = {a, b}
Compatible(con, a, b) ==
  /\ ~Enemies(con.ci, a, b)
  /\ (Has(con.rd, a) \/ Has(con.ri, a)) /\ (Has(con.rd, b) \/ Has(con.ri, b)) =>
        \A x, y \in {a, b} : ValidDep(-1, Blocks(con.rd, x), Blocks(con.ri, y))
BlocksCompatible(con) ==
  \A i \in 1..Len(con.cd) : \A a, b \in Range(con.cd[i]) : a # b => Compatible(con, a, b)
ValidInput(n, con) ==
  /\ ValidDep(n, con.cd, con.ci)
  /\ \A i \in 1..Len(con.rd) : ValidDep(-1, con.rd[i][2], Blocks(con.ri, con.rd[i][1]))
  /\ BlocksCompatible(con)
ValidPartition(z, con) ==
  /\ \A i \in 1..Len(con.cd) : \A a, b \in Range(con.cd[i]) : z[a + 1] = z[b + 1]
  /\ BlocksCompatible(con)
  /\ \A p \in 1..Len(con.ci) : z[con.ci[p][1] + 1] # z[con.ci[p][2] + 1]

Friends(con, c) == LET S == {i \in 1..Len(con.cd) : c \in Range(con.cd[i])}
                   IN IF S = {} THEN {c} ELSE Range(con.cd[Min(S)])
(* customers enter in order, each with its friends, at a table without enemies *)
RECURSIVE Seat(_, _, _, _)
Seat(con, a, z, c) ==               \* c: 1-based position; -1: not seated
  IF c > Len(z) THEN <<[z |-> z, p |-> One]>>
  ELSE IF z[c] >= 0 THEN Seat(con, a, z, c + 1)
  ELSE LET F == Friends(con, c - 1)
           K == Max({z[i] : i \in 1..Len(z)}) + 1
           at(t) == {i \in 1..Len(z) : z[i] = t}
           open(t) == \A i \in at(t) : \A f \in F : Compatible(con, f, i - 1)
           ok == SelectSeq([t \in 1..K |-> t - 1], open)
           total == Plus(a, I(ISum([j \in 1..Len(ok) |-> Cardinality(at(ok[j]))])))
           put(t) == [i \in 1..Len(z) |-> IF i - 1 \in F THEN t ELSE z[i]]
           grow(t, w) == LET R == Seat(con, a, put(t), c + 1) IN
             [r \in 1..Len(R) |-> [z |-> R[r].z, p |-> Times(Div(w, total), R[r].p)]]
           RECURSIVE All(_)
           All(j) == IF j > Len(ok) THEN grow(K, a)
                     ELSE grow(ok[j], I(Cardinality(at(ok[j])))) \o All(j + 1)
       IN All(1)
SeatLaw(n, con, a) == Seat(con, a, [i \in 1..n |-> -1], 1)

(* every block is one customer of an ordinary process *)
Lone(n, cd) == SelectSeq([i \in 1..n |-> i - 1], LAMBDA c : \A i \in 1..Len(cd) : c \notin Range(cd[i]))
Units(n, cd) == cd \o LET L == Lone(n, cd) IN [i \in 1..Len(L) |-> <<L[i]>>]
UnitTables(z, cd) == LET U == Units(Len(z), cd) IN [i \in 1..Len(U) |-> z[U[i][1] + 1]]
BlockProb(z, cd, a) == IF ~ValidPartition(z, [cd |-> cd, ci |-> <<>>, rd |-> <<>>, ri |-> <<>>]) THEN Zero
                       ELSE CrpProb(UnitTables(z, cd), a)
BlockLaw(n, cd, a) ==
  LET S == SetSeq({z \in Partitions(n) : ValidPartition(z, [cd |-> cd, ci |-> <<>>, rd |-> <<>>, ri |-> <<>>])})
  IN [i \in 1..Len(S) |-> [z |-> S[i], p |-> BlockProb(S[i], cd, a)]]

(* ---- weights ---------------------------------------------------------------- *)
(* <<0, n, d>> is n/d, <<1, 0, 1>> plus infinity, <<2, 0, 1>> not a number        *)
Infinite(xs) == \E i \in 1..Len(xs) : xs[i][1] = 1
Undefined(xs) == \E i \in 1..Len(xs) : xs[i][1] = 2
Finite(x) == Q(x[2], x[3])
Nil(x) == x[1] = 0 /\ x[2] = 0
Adding(xs) == Sum([i \in 1..Len(xs) |-> Finite(xs[i])])
(* a sum in log space: zero next to infinity has no value, a mean drops the zeros *)
Total(xs) == IF Undefined(xs) \/ (Infinite(xs) /\ \E i \in 1..Len(xs) : Nil(xs[i])) THEN <<"nan">>
             ELSE IF Infinite(xs) THEN <<"inf">> ELSE Adding(xs)
Mean(xs) == IF xs = <<>> THEN Zero ELSE IF Undefined(xs) THEN <<"nan">>
            ELSE IF Infinite(xs) THEN <<"inf">> ELSE Div(Adding(xs), I(Len(xs)))
WeightedMean(xs, ws) ==
  Div(Sum([i \in 1..Len(xs) |-> Times(Finite(xs[i]), Finite(ws[i]))]), Adding(ws))
Proper(xs) == ~Undefined(xs) /\ ~Infinite(xs) /\ \E i \in 1..Len(xs) : ~Nil(xs[i])
Shares(xs) == LET t == Adding(xs) IN [i \in 1..Len(xs) |-> Div(Finite(xs[i]), t)]
Choose(n, k) == Prod([i \in 1..k |-> Q(n - k + i, i)])
Spaced(a, b, n) == [i \in 1..n |-> Times(a, Pow(Div(b, a), Q(i - 1, n - 1)))]

(* ---- dummy codes ------------------------------------------------------------ *)
(* x in halves; ks[i] = 0: x[i] is a number, else a category in 0..ks[i]-1       *)
RECURSIVE Dummy(_, _)
Dummy(x, ks) ==
  IF x = <<>> THEN <<>>
  ELSE (IF ks[1] = 0 THEN <<x[1]>> ELSE [j \in 1..(ks[1] - 1) |-> IF x[1] = 2 * (j - 1) THEN 2 ELSE 0])
       \o Dummy(Tail(x), Tail(ks))
DummyValid(x, ks) == \A i \in 1..Len(x) : ks[i] > 0 => (x[i] >= 0 /\ x[i] < 2 * ks[i] /\ x[i] % 2 = 0)

(* ---- queries split by group -------------------------------------------------- *)
GroupOf(Z, v) == LET i == CHOOSE j \in 1..Len(Z) : Z[j][1] = v IN Z[i][2]
Split(Z, vs) ==         \* vs: sequence of variables, order kept within a group
  LET G == Sorted({GroupOf(Z, vs[i]) : i \in 1..Len(vs)}) IN
  [g \in 1..Len(G) |-> <<G[g], SelectSeq(vs, LAMBDA v : GroupOf(Z, v) = G[g])>>]
(* rows with equal table in every view *)
RowBlocks(A) ==         \* A[view][row]
  LET key(r) == [v \in 1..Len(A) |-> A[v][r]]
      K == SetSeq({key(r) : r \in 1..Len(A[1])})
  IN [i \in 1..Len(K) |-> <<K[i], Sorted({r - 1 : r \in {s \in 1..Len(A[1]) : key(s) = K[i]}})>>]
(* later maps override *)
RECURSIVE Merge(_)
Merge(ds) ==
  IF ds = <<>> THEN <<>>
  ELSE LET rest == Merge(Tail(ds))
           old == SelectSeq(ds[1], LAMBDA p : \A i \in 1..Len(rest) : rest[i][1] # p[1])
       IN old \o rest

(* ---- schemas ------------------------------------------------------------------ *)
NA == -99999
Levels(x) == Sorted(Range(x) \ {NA})
(* col: [type, k (declared number of categories, 0: none), x] *)
Nominal(col) == col.type \in {"bernoulli", "categorical"}
SchemaValid(col) ==
  /\ col.type = "bernoulli" => Len(Levels(col.x)) = 2
  /\ (col.type = "categorical" /\ col.k > 0) => Len(Levels(col.x)) <= col.k
Coded(col) ==
  IF ~Nominal(col) THEN col.x
  ELSE [i \in 1..Len(col.x) |-> IF col.x[i] = NA THEN NA
           ELSE Cardinality({y \in Range(Levels(col.x)) : y < col.x[i]})]
SchemaK(col) == IF col.type # "categorical" THEN 0 ELSE IF col.k > 0 THEN col.k ELSE Len(Levels(col.x))

(* ---- column types ---------------------------------------------------------------- *)
Types == <<
  [name |-> "bernoulli", module |-> "cgpm.primitives.bernoulli", class |-> "Bernoulli", loom |-> "boolean"],
  [name |-> "beta", module |-> "cgpm.primitives.beta", class |-> "Beta", loom |-> "real"],
  [name |-> "categorical", module |-> "cgpm.primitives.categorical", class |-> "Categorical", loom |-> "categorical"],
  [name |-> "crp", module |-> "cgpm.primitives.crp", class |-> "Crp", loom |-> "unbounded_categorical"],
  [name |-> "exponential", module |-> "cgpm.primitives.exponential", class |-> "Exponential", loom |-> "real"],
  [name |-> "geometric", module |-> "cgpm.primitives.geometric", class |-> "Geometric", loom |-> "real"],
  [name |-> "linear_regression", module |-> "cgpm.regressions.linreg", class |-> "LinearRegression", loom |-> ""],
  [name |-> "lognormal", module |-> "cgpm.primitives.lognormal", class |-> "Lognormal", loom |-> "real"],
  [name |-> "normal", module |-> "cgpm.primitives.normal", class |-> "Normal", loom |-> "real"],
  [name |-> "normal_trunc", module |-> "cgpm.primitives.normal_trunc", class |-> "NormalTrunc", loom |-> "real"],
  [name |-> "poisson", module |-> "cgpm.primitives.poisson", class |-> "Poisson", loom |-> "count"],
  [name |-> "random_forest", module |-> "cgpm.regressions.forest", class |-> "RandomForest", loom |-> ""],
  [name |-> "vonmises", module |-> "cgpm.primitives.vonmises", class |-> "Vonmises", loom |-> "real"]>>
(* a wide categorical is an unbounded one to loom *)
Loom(name, k) == IF name = "categorical" /\ k > 256 THEN "unbounded_categorical"
                 ELSE LET i == CHOOSE j \in 1..Len(Types) : Types[j].name = name IN Types[i].loom

(* ---- moving within cells: weights w of unit cells 0..Len(w)-1 ------------------- *)
CellLaw(w) == LET t == ISum(w) IN [i \in 1..Len(w) |-> Q(w[i], t)]
=============================================================================
