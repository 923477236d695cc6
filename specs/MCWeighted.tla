------------------------------ MODULE MCWeighted ------------------------------
(* Ensembles of two tables over a target and an evidence variable: weighting   *)
(* by evidence is conditioning the uniform mixture of the models.              *)
EXTENDS Weighted
CONSTANTS W
VARIABLES a, b
vars == <<a, b>>
Table == [{0, 1} \X {0, 1} -> 0..W]
Init == a \in {t \in Table : t[<<0, 0>>] + t[<<0, 1>>] + t[<<1, 0>>] + t[<<1, 1>>] > 0} /\ b = <<>>
Next == b = <<>> /\ b' \in {t \in Table : t[<<0, 0>>] + t[<<0, 1>>] + t[<<1, 0>>] + t[<<1, 1>>] > 0} /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
done == b # <<>>
Mass(t) == t[<<0, 0>>] + t[<<0, 1>>] + t[<<1, 0>>] + t[<<1, 1>>]
P(t, x, e) == Q(t[<<x, e>>], Mass(t))
E(t, e) == Q(t[<<0, e>>] + t[<<1, e>>], Mass(t))
Given(t, x, e) == IF t[<<0, e>>] + t[<<1, e>>] = 0 THEN Zero ELSE Q(t[<<x, e>>], t[<<0, e>>] + t[<<1, e>>])
Ok(e) == done /\ a[<<0, e>>] + a[<<1, e>>] + b[<<0, e>>] + b[<<1, e>>] > 0
Ws(e) == <<E(a, e), E(b, e)>>
Avg(x, e) == EnsembleMean(<<Given(a, x, e), Given(b, x, e)>>, Ws(e))
Conditions == \A e \in {0, 1} : Ok(e) =>
  /\ \A x \in {0, 1} : Rat(Avg(x, e)) = Rat(Div(Plus(P(a, x, e), P(b, x, e)), Plus(E(a, e), E(b, e))))
  /\ Rat(Plus(Avg(0, e), Avg(1, e))) = <<1, 1>>
NoEvidence == done => \A x \in {0, 1} :
  Rat(PlainMean(<<P(a, x, 0), P(b, x, 0)>>)) = Rat(EnsembleMean(<<P(a, x, 0), P(b, x, 0)>>, <<One, One>>))
(* counts first and draws second is drawing rows of the mixture: the chance    *)
(* that all of n rows show x                                                   *)
Resampled == \A e \in {0, 1} : Ok(e) => \A n \in 1..3, x \in {0, 1} :
  LET law == CountLaw(n, Ws(e)) IN
  /\ Rat(Sum([i \in 1..Len(law) |-> law[i].p])) = <<1, 1>>
  /\ Rat(Sum([i \in 1..Len(law) |-> Times(law[i].p, Times(Pow(Given(a, x, e), I(law[i].c[1])),
                                                        Pow(Given(b, x, e), I(law[i].c[2]))))]))
       = Rat(Pow(Avg(x, e), I(n)))
=============================================================================
