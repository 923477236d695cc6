------------------------------ MODULE MCLinear ------------------------------
(* Theorems on Linear.tla over all small matrices.                          *)
EXTENDS Linear
CONSTANTS K, V, L       \* dimension, entries are -V..V, width of the vectors
VARIABLES A, u, v, done
vars == <<A, u, v, done>>
N == 1..K
Vec == [N -> -V..V]
(* first the vectors, then the matrix: states to share among the workers      *)
Init == /\ A \in [N -> [N -> 0..0]] /\ u \in [N -> 0..0] /\ v \in [N -> 0..0] /\ done = FALSE
Next == \/ /\ ~done /\ A[1][1] = 0 /\ u = [i \in N |-> 0] /\ v = [i \in N |-> 0]
           /\ u' \in [N -> (1 - L)..1] /\ v' \in [N -> IF L = 1 THEN {1, 2} ELSE {-1, 1, 2}] /\ UNCHANGED <<A, done>>
        \/ /\ ~done /\ v # [i \in N |-> 0]
           /\ A' \in [N -> Vec] /\ done' = TRUE /\ UNCHANGED <<u, v>>
Spec == Init /\ [][Next]_vars

AsSeq(f) == [i \in 1..K |-> f[i]]
M == [i \in 1..K |-> AsSeq(A[i])]
U == AsSeq(u)
W == AsSeq(v)
Tr(X) == [i \in 1..K |-> [j \in 1..K |-> X[j][i]]]
Mul(X, Y) == [i \in 1..K |-> [j \in 1..K |-> ISum([k \in 1..K |-> X[i][k] * Y[k][j]])]]
Unit(i) == [j \in 1..K |-> IF i = j THEN 1 ELSE 0]
(* both determinants agree; transposition; product with the transpose *)
Agree == done => Rat(DetT(Terms2(M))) = <<Det(M), 1>>
Transposed == done => Det(Tr(M)) = Det(M)
Product == done => Det(Mul(M, Tr(M))) = Det(M) * Det(M)
(* Cramer: the vector with entries Cross(M, U, e_i) solves M x = Det(M) U *)
Cramer == done => LET x == [i \in 1..K |-> Cross(M, U, Unit(i))] IN
            /\ Times2(M, x) = [i \in 1..K |-> Det(M) * U[i]]
            /\ Cross(M, U, W) = Dot(W, x)
(* a positive definite covariance: S = M M' + I *)
S == LET P == Mul(M, Tr(M)) IN [i \in 1..K |-> [j \in 1..K |-> P[i][j] + (IF i = j THEN 1 ELSE 0)]]
E == [i \in 1..(K - 1) |-> i + 1]
Zeros == [i \in 1..K |-> I(0)]
(* conditioning the first coordinate on the others: the quadratic forms and   *)
(* determinants of joint and marginal give the density with the conditional   *)
(* mean and covariance                                                        *)
Schur == done =>
  LET St == Terms2(S)  d == Terms(U)
      m == MvnMean(Zeros, St, <<1>>, E, SubSeq(d, 2, K))[1]
      c == MvnCov(Zeros, St, <<1>>, E)[1][1]
      q(R) == Div(CrossT(Block(St, R, R), Picked(d, R), Picked(d, R)), DetT(Block(St, R, R)))
      e == Minus(d[1], m)
  IN /\ Rat(Times(c, DetT(Block(St, E, E)))) = Rat(DetT(St))
     /\ Rat(Minus(q(<<1>> \o E), q(E))) = Rat(Div(Times(e, e), c))
     /\ Rat(c)[1] > 0
(* the quadratic form and the determinant vary as MvnGradient says: exactly,   *)
(* the form being quadratic in the point and both being affine in each entry   *)
(* of the matrix                                                               *)
Plus1(X, i, j) == [a \in 1..K |-> [b \in 1..K |-> X[a][b] + (IF a = i /\ b = j THEN 1 ELSE 0)]]
Moved(x, i, s) == [j \in 1..K |-> x[j] + (IF i = j THEN s ELSE 0)]
Gradient == done =>
  LET St == Terms2(S)  D == Det(S)
      a == [i \in 1..K |-> Cross(S, U, Unit(i))]      \* D * alpha
      g == MvnGradient(Zeros, St, Terms(U))
  IN \A i, j \in 1..K :
       LET S2 == Plus1(S, i, j)  D2 == Det(S2)
           C == Cross(S, U, U)  C2 == Cross(S2, U, U)
       IN /\ Rat(Times(g.m[i], I(D))) = <<a[i], 1>>
          /\ Cross(S, Moved(U, i, 1), Moved(U, i, 1)) - Cross(S, Moved(U, i, -1), Moved(U, i, -1)) = 4 * a[i]
          /\ (C2 - C) * D - C * (D2 - D) = 0 - a[i] * a[j]
          (* -1/2 d(form) - 1/2 d(log det) *)
          /\ Rat(g.s[i][j]) = Rat(Div(I(a[i] * a[j] - (D2 - D) * D), I(2 * D * D)))
=============================================================================
