------------------------------ MODULE MCHelpers ------------------------------
(* Theorems on Helpers.tla over every small constraint set and partition.    *)
EXTENDS Helpers
CONSTANTS N, Pairs          \* customers, at most this many independence pairs
VARIABLES cd, ci, z, phase
vars == <<cd, ci, z, phase>>
C == 0..(N - 1)
Block == {S \in SUBSET C : Cardinality(S) > 1}
Pair == {S \in SUBSET C : Cardinality(S) = 2}
Init == cd = {} /\ ci = {} /\ z = <<>> /\ phase = 0
Next == \/ /\ phase = 0 /\ phase' = 1 /\ z' \in Partitions(N) /\ UNCHANGED <<cd, ci>>
        \/ /\ phase = 1 /\ phase' = 2 /\ UNCHANGED z
           /\ cd' \in {S \in SUBSET Block : Cardinality(S) <= 2}
           /\ ci' \in {S \in SUBSET Pair : Cardinality(S) <= Pairs}
Spec == Init /\ [][Next]_vars
done == phase = 2
Con == [cd |-> LET S == SetSeq(cd) IN [i \in 1..Len(S) |-> Sorted(S[i])],
        ci |-> LET S == SetSeq(ci) IN [i \in 1..Len(S) |-> Sorted(S[i])], rd |-> <<>>, ri |-> <<>>]
A == Q(3, 2)
One1 == <<1, 1>>
Adds(law) == Rat(Sum([i \in 1..Len(law) |-> law[i].p])) = One1
Support(law) == {law[i].z : i \in 1..Len(law)}
All == Partitions(N)
(* a declaration is accepted only if some partition satisfies it; the laws are  *)
(* proper and reach exactly the partitions that satisfy it                      *)
First == z = [i \in 1..N |-> 0]
Consistent == (done /\ First /\ ValidInput(N, Con)) => (\E y \in All : ValidPartition(y, Con))
Contradictory == (done /\ First) =>
  ((~ValidInput(N, Con) /\ (\A b, c \in cd : b = c \/ b \cap c = {})) => (\A y \in All : ~ValidPartition(y, Con)))
Seated == (done /\ First /\ ValidInput(N, Con)) =>
  LET law == SeatLaw(N, Con, A) IN
    Adds(law) /\ Support(law) = {y \in All : ValidPartition(y, Con)} /\ Len(law) = Cardinality(Support(law))
Blocked == (done /\ First /\ ci = {} /\ ValidInput(N, Con)) =>
  LET law == BlockLaw(N, Con.cd, A) IN Adds(law) /\ Support(law) = {y \in All : ValidPartition(y, Con)}
Plain == (done /\ First /\ ci = {} /\ cd = {}) =>
  LET law == SeatLaw(N, Con, A) IN \A i \in 1..Len(law) : Rat(law[i].p) = Rat(CrpProb(law[i].z, A))
(* predictive weights multiply to the law, in any order; Gibbs weights are the   *)
(* ratios of the law                                                             *)
Move(y, i, t) == [j \in 1..N |-> IF j = i THEN t ELSE y[j]]
Gibbs == phase = 1 => \A i \in 1..N :
  LET T == GibbsTables(z, i, 1)  w == GibbsWeights(z, i, A, 1) IN
  \A j, k \in 1..Len(T) :
     Rat(Times(w[j], CrpProb(Move(z, i, T[k]), A))) = Rat(Times(w[k], CrpProb(Move(z, i, T[j]), A)))
Auxiliary == phase = 1 => \A m \in 1..3 : \A i \in 0..N :
  LET w == GibbsWeights(z, i, A, m)  f == Fresh(SizesOf(z), A, m) IN
  /\ (i > 0) => (Len(w) = Cardinality(Tables(z)) + m - (IF Size(z, z[i]) = 1 THEN 1 ELSE 0))
  /\ Rat(Sum(f)) = One1
  /\ (i = 0) => (Rat(Sum(w)) = Rat(Plus(I(N), A)))
Predictive == phase = 1 =>
  Rat(CrpProb(z, A)) = Rat(Prod([i \in 1..N |->
     LET y == SubSeq(z, 1, i - 1)  T == Sorted(Tables(y))  f == Fresh(SizesOf(y), A, 1)
     IN IF z[i] \in Tables(y) THEN f[CHOOSE j \in 1..Len(T) : T[j] = z[i]] ELSE f[Len(f)]]))
Canonical == phase = 1 => Canon(z) = z
(* dummy codes: injective, of one length; splitting loses nothing                *)
Ks == <<0, 3, 2>>
Codes == phase = 0 =>
  LET X == {<<a, b, c>> : a \in {0, 1, 5}, b \in {0, 2, 4}, c \in {0, 2}} IN
  /\ \A x, y \in X : (Dummy(x, Ks) = Dummy(y, Ks)) => (x = y)
  /\ \A x \in X : DummyValid(x, Ks) /\ Len(Dummy(x, Ks)) = 4
Splits == phase = 1 =>
  LET Z == [i \in 1..N |-> <<i - 1, z[i]>>]  vs == [i \in 1..(N - 1) |-> N - i]  S == Split(Z, vs) IN
  /\ UNION {Range(S[g][2]) : g \in 1..Len(S)} = Range(vs)
  /\ \A g, h \in 1..Len(S) : g # h => Range(S[g][2]) \cap Range(S[h][2]) = {}
  /\ ISum([g \in 1..Len(S) |-> Len(S[g][2])]) = Len(vs)
=============================================================================
