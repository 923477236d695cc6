----------------------------- MODULE MCExternal -----------------------------
(* Theorems on External.tla over all short histories of small models.       *)
EXTENDS External
CONSTANTS Kind, Steps
VARIABLES S, ever, n        \* ever: what a careful observer has recorded
vars == <<S, ever, n>>

Base == [kind |-> Kind, ins |-> <<>>, itypes |-> <<>>, ik |-> <<>>, outs |-> <<7, 3>>,
         types |-> <<"cat", "cat">>, k |-> <<2, 3>>, par |-> [x |-> 0]]
G == CASE Kind = "kde" -> [Base EXCEPT !.par = [bw |-> <<Q(1, 10), Q(1, 5)>>]]
       [] Kind = "knn" -> [Base EXCEPT !.par = [K |-> 2, M |-> 2]]
       [] Kind = "linreg" -> [kind |-> Kind, outs |-> <<7>>, types |-> <<"num">>, k |-> <<0>>, ins |-> <<3>>,
                              itypes |-> <<"num">>, ik |-> <<0>>,
                              par |-> [a |-> One, b |-> One, mu |-> <<0, 0>>, Vinv |-> <<<<1, 0>>, <<0, 1>>>>]]
       [] Kind = "piece" -> [Base EXCEPT !.types = <<"num", "cat">>, !.ins = <<9>>,
                              !.par = [sigma |-> One, flip |-> Q(1, 4)]]
Xs == IF Kind = "linreg" THEN {<<<<7, x>>>> : x \in {-1, 2, NA}}
      ELSE {<<<<7, a>>, <<3, b>>>> : a \in {0, 1}, b \in {0, 2}} \cup {<<<<3, 1>>>>, <<<<7, 1>>, <<3, NA>>>>, <<>>}
Ys == IF Kind = "linreg" THEN {<<<<3, y>>>> : y \in {0, 2}} \cup {<<>>} ELSE {<<>>}
Ops == {[k |-> "inc", id |-> i, x |-> x, y |-> y] : i \in 1..2, x \in Xs, y \in Ys}
       \cup {[k |-> "inc", id |-> 3, x |-> x, y |-> y] : x \in {CHOOSE z \in Xs : Len(z) > 0}, y \in Ys}
       \cup {[k |-> "uninc", id |-> i] : i \in 1..3} \cup {[k |-> "fit"]}
Init == S = Fresh /\ ever = {} /\ n = 0
Next == /\ n < Steps /\ n' = n + 1
        /\ \E o \in Ops :
             /\ S' = Step(G, S, o)
             /\ ever' = IF o.k = "inc" /\ Accepts(G, S.D, o) /\ Keeps(G)
                        THEN ever \cup {<<o.id, Known(o.x), o.y>>}
                        ELSE IF o.k = "uninc" THEN {e \in ever : e[1] # o.id} ELSE ever
Spec == Init /\ [][Next]_vars

(* exactly the accepted rows that were not removed, once each                *)
Recorded == /\ {<<S.D[i].id, S.D[i].x, S.D[i].y>> : i \in 1..Len(S.D)} = ever
            /\ Cardinality(Ids(S.D)) = Len(S.D)
(* removing a row just recorded restores the state; a refusal changes nothing *)
Undone == \A o \in {p \in Ops : p.k = "inc"} :
            IF Accepts(G, S.D, o) /\ Keeps(G)
            THEN Step(G, Step(G, S, o), [k |-> "uninc", id |-> o.id]) = S
            ELSE Step(G, S, o) = S
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
V1 == <<7>>
V2 == <<3>>
P(p) == Rat(p)
Add(S2) == Rat(Sum(S2))
(* densities over all values sum to one, in every order of the rows *)
Proper ==
  CASE Kind = "kde" -> \A c \in {<<>>} \cup {<<<<3, b>>>> : b \in 0..2} :
         LET L == KdeLaw(G, S.D, V1, c) IN
         L # <<>> => /\ Add([x \in 1..2 |-> MixDensity(V1, L, <<<<7, x - 1>>>>)]) = <<1, 1>>
                     /\ P(MixDensity(V1, L, <<<<7, 0>>>>)) = P(MixDensity(V1, KdeLaw(G, Rev(S.D), V1, c), <<<<7, 0>>>>))
    [] Kind = "knn" -> \A b \in 0..2 : LET c == <<<<3, b>>>> IN
         KnnOk(G, S.D, V1, c) =>
           LET C == Candidates(G, S.D, V1, c) IN
           /\ Len(C) >= G.par.K
           /\ Settled(C) => LET Ls == KnnLaw(C) IN Add([x \in 1..2 |-> MixDensity(V1, Ls, <<<<7, x - 1>>>>)]) = <<1, 1>>
    [] Kind = "linreg" ->
         LET h == Posterior(G, DesignX(G, S.D), Responses(G, S.D))
             g == Posterior(G, DesignX(G, Rev(S.D)), Responses(G, Rev(S.D))) IN
         h.P = g.P /\ h.r = g.r /\ h.d > 0 /\ P(h.b) = P(g.b) /\ P(h.b)[1] > 0
    [] Kind = "piece" ->
         /\ Rat(Sum([z \in 1..2 |-> PieceMix(G, 1)[z].w])) = <<1, 1>>
         /\ \A a, b \in -1..1 : Add(FourRow(a, b)) = <<1, 1>>
         /\ \A y \in 1..2 : Add(TwoTable[y]) = <<1, 1>>
(* the density of both is that of one times that of the other given it        *)
Conditional ==
  CASE Kind = "kde" ->
         LET D == Complete(S.D, {3, 7})  Both == KdeMix(G, D, <<7, 3>>) IN
         D # <<>> => \A a \in 0..1, b \in 0..2 :
           P(MixDensity(<<7, 3>>, Both, <<<<7, a>>, <<3, b>>>>)) =
           P(Times(MixDensity(V2, KdeMix(G, D, V2), <<<<3, b>>>>),
                   MixDensity(V1, KdeLaw(G, D, V1, <<<<3, b>>>>), <<<<7, a>>>>)))
    [] Kind = "linreg" ->       \* the recursion of the posterior: b grows by half the squared
                                \* standardised residual of the new row
         S.D # <<>> =>
         LET D0 == SubSeq(S.D, 1, Len(S.D) - 1)  e == S.D[Len(S.D)]
             h == Posterior(G, DesignX(G, D0), Responses(G, D0))
             g == Posterior(G, DesignX(G, S.D), Responses(G, S.D))
             x == Covariates(G, e.y)
             r == Minus(I(ValAt(e.x, 7)), Q(Cross(h.P, h.r, x), h.d))
         IN P(Minus(g.b, h.b)) = P(Half(Div(Times(r, r), Plus(One, Q(Cross(h.P, x, x), h.d)))))
    [] OTHER -> TRUE
=============================================================================
