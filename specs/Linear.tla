------------------------------- MODULE Linear -------------------------------
(* Matrices: determinants, Cramer's rule, and the multivariate normal.      *)
(* Det is over integers, DetT over expression trees.                        *)
EXTENDS Expr

Minor(A, i, j) ==
  [a \in 1..(Len(A) - 1) |-> [b \in 1..(Len(A) - 1) |->
     A[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]]]
RECURSIVE Det(_)
Det(A) == IF Len(A) = 0 THEN 1
          ELSE IF Len(A) = 1 THEN A[1][1]
          ELSE ISum([j \in 1..Len(A) |->
                  IF A[1][j] = 0 THEN 0
                  ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, 1, j))])
RECURSIVE DetT(_)
DetT(A) == IF Len(A) = 0 THEN One
           ELSE IF Len(A) = 1 THEN A[1][1]
           ELSE Sum([j \in 1..Len(A) |->
                  Prod(<<I(IF j % 2 = 1 THEN 1 ELSE -1), A[1][j], DetT(Minor(A, 1, j))>>)])
(* [A u; v' z] *)
Border(A, u, v, z) ==
  [i \in 1..(Len(A) + 1) |-> [j \in 1..(Len(A) + 1) |->
     IF i <= Len(A) THEN IF j <= Len(A) THEN A[i][j] ELSE u[i]
     ELSE IF j <= Len(A) THEN v[j] ELSE z]]
(* v' inverse(A) u  =  Cross(A, u, v) / Det(A) *)
Cross(A, u, v)  == 0 - Det(Border(A, u, v, 0))
CrossT(A, u, v) == Minus(Zero, DetT(Border(A, u, v, Zero)))
Block(A, R, C) == [i \in 1..Len(R) |-> [j \in 1..Len(C) |-> A[R[i]][C[j]]]]
Picked(u, R) == [i \in 1..Len(R) |-> u[R[i]]]
Column(A, R, j) == [i \in 1..Len(R) |-> A[R[i]][j]]
Dot(u, v) == ISum([i \in 1..Len(u) |-> u[i] * v[i]])
DotT(u, v) == Sum([i \in 1..Len(u) |-> Times(u[i], v[i])])
Times2(A, u) == [i \in 1..Len(A) |-> Dot(A[i], u)]

(* ---- multivariate normal, entries are expression trees -------------------- *)
MinusT(x, mu) == [i \in 1..Len(x) |-> Minus(x[i], mu[i])]
(* density of the coordinates R at x *)
MvnDensity(mu, S, R, x) ==
  LET A == Block(S, R, R)  d == MinusT(x, Picked(mu, R))  D == DetT(A) IN
  IF R = <<>> THEN One
  ELSE Div(Exp(Div(CrossT(A, d, d), Times(I(-2), D))),
           Pow(Times(Pow(Times(I(2), Pi), I(Len(R))), D), Q(1, 2)))
MvnGiven(mu, S, T, xt, E, xe) ==
  Div(MvnDensity(mu, S, T \o E, xt \o xe), MvnDensity(mu, S, E, xe))
(* mean and covariance of the coordinates T given E at xe *)
MvnMean(mu, S, T, E, xe) ==
  [i \in 1..Len(T) |-> IF E = <<>> THEN mu[T[i]] ELSE
     Plus(mu[T[i]], Div(CrossT(Block(S, E, E), MinusT(xe, Picked(mu, E)), Picked(S[T[i]], E)),
                        DetT(Block(S, E, E))))]
MvnCov(mu, S, T, E) ==
  [i \in 1..Len(T) |-> [j \in 1..Len(T) |-> IF E = <<>> THEN S[T[i]][T[j]] ELSE
     Minus(S[T[i]][T[j]], Div(CrossT(Block(S, E, E), Column(S, E, T[j]), Picked(S[T[i]], E)),
                              DetT(Block(S, E, E))))]]
(* derivatives of the log density in the point, the mean and the covariance  *)
MvnAlpha(mu, S, x) ==
  [i \in 1..Len(x) |-> Div(CrossT(S, MinusT(x, mu), [j \in 1..Len(x) |-> IF i = j THEN One ELSE Zero]),
                           DetT(S))]
MvnInverse(S) ==
  LET e(i) == [j \in 1..Len(S) |-> IF i = j THEN One ELSE Zero] IN
  [i \in 1..Len(S) |-> [j \in 1..Len(S) |-> Div(CrossT(S, e(j), e(i)), DetT(S))]]
MvnGradient(mu, S, x) ==
  LET a == MvnAlpha(mu, S, x)  V == MvnInverse(S)
  IN [x |-> [i \in 1..Len(x) |-> Minus(Zero, a[i])], m |-> a,
      s |-> [i \in 1..Len(x) |-> [j \in 1..Len(x) |->
               Div(Minus(Times(a[i], a[j]), V[i][j]), I(2))]]]
(* a smallest part of E on which the values at the rest depend linearly       *)
RECURSIVE Basis(_, _, _)
Basis(S, E, have) ==
  IF E = <<>> THEN have
  ELSE LET more == Append(have, E[1]) IN
       Basis(S, Tail(E), IF Det(Block(S, more, more)) # 0 THEN more ELSE have)
Terms(u) == [i \in 1..Len(u) |-> I(u[i])]
Terms2(A) == [i \in 1..Len(A) |-> Terms(A[i])]
=============================================================================
