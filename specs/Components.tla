---------------------------- MODULE Components ----------------------------
(* The component models of cgpm: support, sufficient statistics, one-step  *)
(* predictive density and marginal likelihood of a multiset of             *)
(* observations, written from the documented conjugate models (cgpm's      *)
(* class docstrings), not from the code.                                   *)
(*                                                                         *)
(* A column is a record                                                    *)
(*   [id, type, k, den, lo, hi, h (hyperparameters), x (cells)]            *)
(* Cells are integer codes: the value of code c is                         *)
(*   c / den          normal, exponential, beta, normal_trunc              *)
(*   exp(c / den)     lognormal                                            *)
(*   c * pi / 2       vonmises                                             *)
(*   c                bernoulli, categorical, poisson, geometric, crp      *)
EXTENDS Expr

NaN == -99999

Collapsed == {"bernoulli", "categorical", "crp", "poisson", "geometric",
              "exponential", "normal", "lognormal", "vonmises"}
Uncollapsed == {"beta", "normal_trunc"}
Discrete == {"bernoulli", "categorical", "crp", "poisson", "geometric"}

(* Support over rationals n/d. *)
InSupport(col, n, d) ==
  CASE col.type = "bernoulli"   -> n = 0 \/ n = d
    [] col.type = "categorical" -> n % d = 0 /\ n >= 0 /\ n < col.k * d
    [] col.type \in {"poisson", "geometric"} -> n % d = 0 /\ n >= 0
    [] col.type = "exponential" -> n >= 0
    [] col.type = "lognormal"   -> n > 0
    [] col.type = "normal"      -> TRUE
    [] col.type = "vonmises"    -> n >= 0 /\ n * 113 <= 710 * d   \* [0, 2 pi]
    [] col.type = "beta"        -> n > 0 /\ n < d
    [] col.type = "normal_trunc"-> col.lo * d <= n * col.den /\ n * col.den <= col.hi * d
    [] OTHER -> FALSE

(* cos and sin of a multiple of pi/2 *)
Cos4(c) == CASE c % 4 = 0 -> 1 [] c % 4 = 2 -> -1 [] OTHER -> 0
Sin4(c) == CASE c % 4 = 1 -> 1 [] c % 4 = 3 -> -1 [] OTHER -> 0

Val(col, c) == CASE col.type = "lognormal" -> Exp(Q(c, col.den))
                 [] col.type = "vonmises" -> Times(Q(c, 2), Pi)
                 [] OTHER -> Q(c, col.den)

(* Integer sufficient statistics of a sequence of codes. *)
Stats(col, xs) ==
  LET n  == Len(xs)
      s1 == ISum(xs)
      s2 == ISum([i \in 1..n |-> xs[i] * xs[i]])
  IN CASE col.type = "bernoulli"   -> [n |-> n, s |-> <<s1>>]
       [] col.type = "categorical" -> [n |-> n, s |-> [j \in 1..col.k |-> Count(xs, j-1)]]
       [] col.type = "crp"         -> [n |-> n, s |-> [j \in 1..Cardinality(Range(xs)) |->
                                         Count(xs, Sorted(Range(xs))[j])]]
       [] col.type = "vonmises"    -> [n |-> n, s |-> <<ISum([i \in 1..n |-> Cos4(xs[i])]),
                                                        ISum([i \in 1..n |-> Sin4(xs[i])])>>]
       [] col.type \in {"normal", "lognormal", "normal_trunc"} -> [n |-> n, s |-> <<s1, s2>>]
       [] OTHER -> [n |-> n, s |-> <<s1>>]

(* ---- normal-gamma ---------------------------------------------------- *)
(* posterior (r, nu, m, s) of nu/2, s/2, m, r with data codes xs / den     *)
NG(col, xs) ==
  LET n  == Len(xs)
      s1 == ISum(xs)
      s2 == ISum([i \in 1..n |-> xs[i] * xs[i]])
      d  == col.den
      r  == col.h.r   m == col.h.m
      rn == Plus(r, I(n))
      mean == Q(s1, d * n)
      scatter == Q(n * s2 - s1 * s1, n * d * d)
  IN IF n = 0 THEN [r |-> r, nu |-> col.h.nu, m |-> m, s |-> col.h.s]
     ELSE [r  |-> rn,
           nu |-> Plus(col.h.nu, I(n)),
           m  |-> Div(Plus(Times(r, m), Times(I(n), mean)), rn),
           s  |-> Sum(<<col.h.s, scatter,
                    Times(Div(Times(r, I(n)), rn),
                          Pow(Minus(mean, m), I(2)))>>)]

(* Student-t density at y: nu dof, location m, scale^2 = s (r+1) / (r nu)  *)
StudentT(p, y) ==
  LET w  == Div(Times(p.s, Plus(p.r, One)), p.r)      \* nu * scale^2
      a  == Half(Plus(p.nu, One))
  IN Prod(<<Div(Gam(a), Gam(Half(p.nu))),
            Pow(Times(Pi, w), Q(-1, 2)),
            Pow(Plus(One, Div(Pow(Minus(y, p.m), I(2)), w)), Minus(Zero, a))>>)

NGMarginal(col, xs) ==
  LET p == NG(col, xs)  n == Len(xs)
  IN Prod(<<Pow(Pi, Q(-n, 2)),
            Pow(Div(col.h.r, p.r), Q(1, 2)),
            Div(Gam(Half(p.nu)), Gam(Half(col.h.nu))),
            Pow(col.h.s, Half(col.h.nu)),
            Pow(p.s, Minus(Zero, Half(p.nu)))>>)

(* ---- von Mises -------------------------------------------------------- *)
(* squared posterior concentration *)
VM2(col, xs) ==
  LET C == ISum([i \in 1..Len(xs) |-> Cos4(xs[i])])
      S == ISum([i \in 1..Len(xs) |-> Sin4(xs[i])])
      pc == Plus(Times(col.h.k, I(C)), Times(col.h.a, <<"cos", col.h.b>>))
      ps == Plus(Times(col.h.k, I(S)), Times(col.h.a, <<"sin", col.h.b>>))
  IN Plus(Pow(pc, I(2)), Pow(ps, I(2)))
VMNorm(col) == Prod(<<I(2), Pi, <<"I0", Pow(col.h.k, I(2))>> >>)

(* parameter of an uncollapsed cluster *)
Par(col, cl, name) == <<"s", "par", col.id, cl, name>>
BetaPdf(col, cl, y) ==
  LET a == Times(Par(col, cl, "strength"), Par(col, cl, "balance"))
      b == Times(Par(col, cl, "strength"), Minus(One, Par(col, cl, "balance")))
  IN Prod(<<Pow(y, Minus(a, One)), Pow(Minus(One, y), Minus(b, One)), Div(One, Bet(a, b))>>)
TruncMass(col, cl) ==
  LET mu == Par(col, cl, "mu")  sg == Par(col, cl, "sigma")
  IN Minus(<<"Phi", Div(Minus(Q(col.hi, col.den), mu), sg)>>,
           <<"Phi", Div(Minus(Q(col.lo, col.den), mu), sg)>>)
NormPdf(y, mu, sg) ==
  Prod(<<Pow(Times(I(2), Pi), Q(-1, 2)), Div(One, sg),
         Exp(Times(Q(-1, 2), Pow(Div(Minus(y, mu), sg), I(2))))>>)
TruncPdf(col, cl, y) ==
  Div(NormPdf(y, Par(col, cl, "mu"), Par(col, cl, "sigma")), TruncMass(col, cl))

(* Predictive density of code x given the observed codes xs (cluster cl    *)
(* only matters for uncollapsed parameters).                               *)
Pred(col, cl, xs, x) ==
  LET n == Len(xs)  s == ISum(xs)  h == col.h  d == col.den IN
  CASE col.type = "bernoulli" ->
         Div(IF x = 1 THEN Plus(h.alpha, I(s)) ELSE Plus(h.beta, I(n - s)),
             Sum(<<h.alpha, h.beta, I(n)>>))
    [] col.type = "categorical" ->
         Div(Plus(h.alpha, I(Count(xs, x))), Plus(Times(I(col.k), h.alpha), I(n)))
    [] col.type = "crp" ->
         Div(IF Count(xs, x) = 0 THEN h.alpha ELSE I(Count(xs, x)), Plus(h.alpha, I(n)))
    [] col.type = "poisson" ->
         LET an == Plus(h.a, I(s))  bn == Plus(h.b, I(n)) IN
         Prod(<<Div(Gam(Plus(an, I(x))), Times(Gam(an), Gam(I(x + 1)))),
                Pow(Div(bn, Plus(bn, One)), an),
                Pow(Plus(bn, One), I(-x))>>)
    [] col.type = "geometric" ->
         Div(Bet(Plus(h.a, I(n + 1)), Plus(h.b, I(s + x))),
             Bet(Plus(h.a, I(n)), Plus(h.b, I(s))))
    [] col.type = "exponential" ->
         LET an == Plus(h.a, I(n))  bn == Plus(h.b, Q(s, d)) IN
         Prod(<<an, Pow(bn, an),
                Pow(Plus(bn, Q(x, d)), Minus(Zero, Plus(an, One)))>>)
    [] col.type = "normal" -> StudentT(NG(col, xs), Q(x, d))
    [] col.type = "lognormal" -> Div(StudentT(NG(col, xs), Q(x, d)), Exp(Q(x, d)))
    [] col.type = "vonmises" ->
         Div(<<"I0", VM2(col, Append(xs, x))>>,
             Times(VMNorm(col), <<"I0", VM2(col, xs)>>))
    [] col.type = "beta" -> BetaPdf(col, cl, Q(x, d))
    [] col.type = "normal_trunc" -> TruncPdf(col, cl, Q(x, d))

(* The same density as a function of a symbolic value: used for integrals  *)
(* and cumulative distributions of the continuous components.              *)
PredAt(col, cl, xs, y) ==
  LET n == Len(xs)  s == ISum(xs)  h == col.h  d == col.den IN
  CASE col.type = "exponential" ->
         LET an == Plus(h.a, I(n))  bn == Plus(h.b, Q(s, d)) IN
         Prod(<<an, Pow(bn, an),
                Pow(Plus(bn, y), Minus(Zero, Plus(an, One)))>>)
    [] col.type = "normal" -> StudentT(NG(col, xs), y)
    [] col.type = "lognormal" -> StudentT(NG(col, xs), y)      \* density of ln x
    [] col.type = "vonmises" ->
         LET C == Plus(I(ISum([i \in 1..n |-> Cos4(xs[i])])), <<"cos", y>>)
             S == Plus(I(ISum([i \in 1..n |-> Sin4(xs[i])])), <<"sin", y>>)
             pc == Plus(Times(h.k, C), Times(h.a, <<"cos", h.b>>))
             ps == Plus(Times(h.k, S), Times(h.a, <<"sin", h.b>>))
         IN Div(<<"I0", Plus(Pow(pc, I(2)), Pow(ps, I(2)))>>,
                Times(VMNorm(col), <<"I0", VM2(col, xs)>>))
    [] col.type = "beta" -> BetaPdf(col, cl, y)
    [] col.type = "normal_trunc" -> TruncPdf(col, cl, y)

(* Marginal likelihood of the codes xs. *)
Score(col, cl, xs) ==
  LET n == Len(xs)  s == ISum(xs)  h == col.h  d == col.den IN
  CASE col.type = "bernoulli" ->
         Div(Bet(Plus(h.alpha, I(s)), Plus(h.beta, I(n - s))), Bet(h.alpha, h.beta))
    [] col.type = "categorical" ->
         LET ka == Times(I(col.k), h.alpha) IN
         Times(Div(Gam(ka), Gam(Plus(ka, I(n)))),
               Prod([j \in 1..col.k |->
                      Div(Gam(Plus(h.alpha, I(Count(xs, j-1)))), Gam(h.alpha))]))
    [] col.type = "crp" ->
         LET S == SetSeq(Range(xs)) IN
         Prod(<<Pow(h.alpha, I(Len(S))),
                Div(Gam(h.alpha), Gam(Plus(h.alpha, I(n)))),
                Prod([j \in 1..Len(S) |-> Gam(I(Count(xs, S[j])))])>>)
    [] col.type = "poisson" ->
         LET an == Plus(h.a, I(s))  bn == Plus(h.b, I(n)) IN
         Prod(<<Div(Pow(h.b, h.a), Gam(h.a)), Div(Gam(an), Pow(bn, an)),
                Div(One, Prod([i \in 1..n |-> Gam(I(xs[i] + 1))]))>>)
    [] col.type = "geometric" ->
         Div(Bet(Plus(h.a, I(n)), Plus(h.b, I(s))), Bet(h.a, h.b))
    [] col.type = "exponential" ->
         LET an == Plus(h.a, I(n))  bn == Plus(h.b, Q(s, d)) IN
         Times(Div(Pow(h.b, h.a), Gam(h.a)), Div(Gam(an), Pow(bn, an)))
    [] col.type = "normal" -> NGMarginal(col, xs)
    [] col.type = "lognormal" -> Times(NGMarginal(col, xs), Exp(Q(-s, d)))
    [] col.type = "vonmises" ->
         Prod(<<Div(<<"I0", VM2(col, xs)>>, <<"I0", Pow(h.a, I(2))>>),
                Pow(VMNorm(col), I(-n))>>)
    [] col.type = "beta" ->       \* likelihood and prior of its parameters
         Prod(<<Prod([i \in 1..n |-> BetaPdf(col, cl, Q(xs[i], d))]),
                Q(1, 5), Exp(Times(Q(-1, 5), Par(col, cl, "strength")))>>)
    [] col.type = "normal_trunc" ->
         Prod(<<Prod([i \in 1..n |-> TruncPdf(col, cl, Q(xs[i], d))]),
                Q(col.den, col.hi - col.lo),
                Q(1, 4), Par(col, cl, "sigma"),
                Exp(Times(Q(-1, 2), Par(col, cl, "sigma")))>>)

(* Posterior of the parameters of an uncollapsed component, unnormalised,  *)
(* with the parameters as symbols: Score read as a function of them.       *)
=============================================================================
