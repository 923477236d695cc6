------------------------------- MODULE Weighted -------------------------------
(* An ensemble asked a question under evidence: every model counts by the      *)
(* density it gives the evidence.                                              *)
EXTENDS Expr
(* ws[i]: density of the evidence under model i; ps[i]: answer of model i      *)
Share(ws, i) == Div(ws[i], Sum(ws))
EnsembleMean(ps, ws) == Div(Sum([i \in 1..Len(ps) |-> Times(ps[i], ws[i])]), Sum(ws))
PlainMean(ps) == Div(Sum(ps), I(Len(ps)))
(* n rows are taken from the models by their shares: law of the counts         *)
RECURSIVE Counts(_, _)
Counts(n, k) == IF k = 1 THEN {<<n>>}
                ELSE UNION {{<<j>> \o t : t \in Counts(n - j, k - 1)} : j \in 0..n}
RECURSIVE Multi(_, _)
Multi(n, c) == IF c = <<>> THEN 1
               ELSE (Fact(n) \div (Fact(c[1]) * Fact(n - c[1]))) * Multi(n - c[1], Tail(c))
CountProb(n, c, ws) == Prod(<<I(Multi(n, c))>> \o [i \in 1..Len(c) |-> Pow(Share(ws, i), I(c[i]))])
CountLaw(n, ws) ==
  LET S == SetSeq(Counts(n, Len(ws))) IN [i \in 1..Len(S) |-> [c |-> S[i], p |-> CountProb(n, S[i], ws)]]
(* a model told apart by a mark: a law on 0..2 that turns with an input        *)
Marked(mark, y, x) == Q((x + mark * y) % 3, 3)
=============================================================================
