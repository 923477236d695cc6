---------------------------- MODULE MCInformation ----------------------------
(* Theorems of Information.tla over the networks of MCNetQuery.tla.          *)
EXTENDS MCNetQuery
INSTANCE Information

Triples(S) == {<<X, Y, W>> \in (SUBSET S) \X (SUBSET S) \X (SUBSET S) :
                 X # {} /\ Y # {} /\ X \cap Y = {} /\ (X \cup Y) \cap W = {}}
Closed == net # <<>> /\ External(G) = {}
Given == {q \in UNION {Asg(S) : S \in SUBSET Vs} : ~(Rat(JointP(net, M0, q))[1] = 0)}
Live(t) == ~(Rat(t.w)[1] = 0)
Ratio(t) == Div(t.num, t.den)
TermAt(ts, a) == CHOOSE t \in Range(ts) : Range(a) \subseteq Range(t.v) /\ Len(t.v) = Len(a)
Part(a, S) == Restrict(a, S)

(* every claim below, for all variables, conditions and averages               *)
ForAll(P(_, _, _, _)) == Closed => \A E \in Given : \A t \in Triples(Vs \ KeysOf(E)) :
  P(Sorted(t[1]), Sorted(t[2]), E, Sorted(t[3]))
Weights1(X, Y, E, W) ==
  LET s == MiTerms(net, M0, X, Y, E, W)  h == HTerms(net, M0, X, E, W) IN
  /\ Eq(Sum([i \in 1..Len(s) |-> s[i].w]), One)
  /\ Eq(Sum([i \in 1..Len(h) |-> h[i].w]), One)
Sums == ForAll(Weights1)
Symmetric1(X, Y, E, W) ==
  LET s == MiTerms(net, M0, X, Y, E, W)  r == MiTerms(net, M0, Y, X, E, W) IN
  \A i \in 1..Len(s) : Live(s[i]) => Eq(Ratio(s[i]), Ratio(TermAt(r, s[i].v)))
Symmetric == ForAll(Symmetric1)
(* I(X; Y | W) = H(X | W) + H(Y | W) - H(X, Y | W), H(X, Y | W) = H(X | W) + H(Y | X, W) *)
Chain1(X, Y, E, W) ==
  LET s == MiTerms(net, M0, X, Y, E, W)
      hx == HTerms(net, M0, X, E, W)  hy == HTerms(net, M0, Y, E, W)
      hxy == HTerms(net, M0, X \o Y, E, W)  hyx == HTerms(net, M0, Y, E, X \o W)
  IN \A i \in 1..Len(s) : Live(s[i]) =>
       LET a == s[i].v
           rx == Ratio(TermAt(hx, Part(a, Range(X) \cup Range(W))))
           ry == Ratio(TermAt(hy, Part(a, Range(Y) \cup Range(W))))
           rxy == Ratio(TermAt(hxy, a))
       IN /\ Eq(Times(Ratio(s[i]), rxy), Times(rx, ry))
          /\ Eq(rxy, Times(rx, Ratio(TermAt(hyx, a))))
ChainRule == ForAll(Chain1)
(* never negative (Gibbs): the expected inverse ratio is at most one             *)
Leq(a, b) == LET d == Rat(<<"-", b, a>>) IN d[1] >= 0
Gibbs1(X, Y, E, W) ==
  LET s == SelectSeq(MiTerms(net, M0, X, Y, E, W), Live) IN
  Leq(Sum([i \in 1..Len(s) |-> Times(s[i].w, Div(s[i].den, s[i].num))]), One)
NonNegative == ForAll(Gibbs1)
(* nothing is shared between components of the network                            *)
Apart1(X, Y, E, W) == Unrelated(net, X, Y) =>
  LET s == MiTerms(net, M0, X, Y, E, W) IN
  \A i \in 1..Len(s) : Live(s[i]) => Eq(Ratio(s[i]), One)
Apart == ForAll(Apart1)
(* a condition of another component is irrelevant                                  *)
Irrelevant1(X, Y, E, W) == \A j \in 1..Len(E) :
  (Unrelated(net, <<E[j][1]>>, X) /\ Unrelated(net, <<E[j][1]>>, Y) /\ \A v \in Range(W) : Unrelated(net, <<E[j][1]>>, <<v>>)) =>
    LET s == MiTerms(net, M0, X, Y, E, W)
        r == MiTerms(net, M0, X, Y, SelectSeq(E, LAMBDA p : p # E[j]), W)
    IN \A i \in 1..Len(s) : Live(s[i]) => Eq(Ratio(s[i]), Ratio(TermAt(r, s[i].v)))
Irrelevant == ForAll(Irrelevant1)
=============================================================================
