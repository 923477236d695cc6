------------------------------ MODULE MCNetQuery ------------------------------
(* Theorems of NetQuery.tla over networks of at most three binary nodes      *)
(* with every choice of small weights, in exact rational arithmetic.         *)
EXTENDS NetQuery
CONSTANTS Shapes, Pairs2, Pairs3
Two1 == {<<1, 2>>}
Two2 == {<<1, 2>>, <<0, 1>>}
Two3 == {<<1, 2>>, <<0, 1>>, <<3, 1>>}
Four1 == {<<1, 0, 2, 1>>}
Four2 == {<<1, 0, 2, 1>>, <<1, 1, 1, 3>>}
VARIABLES shape, net

(* shapes: sequences of <<outs, ins>>; variable 9 is external                *)
Shape(s) ==
  CASE s = 1 -> <<<<<<0>>, <<>>>>>>
    [] s = 2 -> <<<<<<1>>, <<0>>>>, <<<<0>>, <<>>>>>>
    [] s = 3 -> <<<<<<1>>, <<0>>>>, <<<<0>>, <<9>>>>>>
    [] s = 4 -> <<<<<<2>>, <<1>>>>, <<<<0>>, <<>>>>, <<<<1>>, <<0>>>>>>
    [] s = 5 -> <<<<<<0, 1>>, <<>>>>, <<<<2>>, <<1>>>>>>
    [] s = 6 -> <<<<<<0>>, <<>>>>, <<<<1>>, <<>>>>, <<<<2>>, <<0, 1>>>>>>
    [] s = 7 -> <<<<<<0>>, <<>>>>, <<<<1, 2>>, <<0>>>>>>
    [] s = 8 -> <<<<<<0>>, <<>>>>, <<<<1>>, <<0>>>>, <<<<2>>, <<0>>>>>>
    [] s = 9 -> <<<<<<0>>, <<>>>>, <<<<1>>, <<>>>>, <<<<2>>, <<1>>>>>>
Bits(vs) == IF vs = <<>> THEN <<<<>>>> ELSE IF Len(vs) = 1 THEN <<<<0>>, <<1>>>>
            ELSE <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>>>
Weights(outs) == IF Len(outs) = 1 THEN Pairs2 ELSE Pairs3
Choices(sh) == [i \in 1..Len(sh) |-> [1..Len(Bits(sh[i][2])) -> Weights(sh[i][1])]]
MkNode(o, f) ==
  [outs |-> o[1], ins |-> o[2], kind |-> "cpt", v |-> 0,
   tab |-> [e \in 1..Len(Bits(o[2])) |-> <<Bits(o[2])[e],
              [r \in 1..Len(Bits(o[1])) |-> <<Bits(o[1])[r], f[e][r]>>]>>]]
RECURSIVE Nets(_)
Nets(sh) == IF sh = <<>> THEN {<<>>}
            ELSE {<<MkNode(Head(sh), f)>> \o rest :
                    f \in [1..Len(Bits(Head(sh)[2])) -> Weights(Head(sh)[1])], rest \in Nets(Tail(sh))}
Init == shape \in Shapes /\ net = <<>>
Next == net = <<>> /\ net' \in Nets(Shape(shape)) /\ UNCHANGED shape
Spec == Init /\ [][Next]_<<shape, net>>

M0 == [n |-> 0, cols |-> <<>>, views |-> <<>>]
G == GraphOf(net)
Vs == Produced(G)
Ext == IF External(G) = {} THEN {<<>>} ELSE {<<<<9, b>>>> : b \in {0, 1}}
AsSeq(f) == LET D == Sorted(DOMAIN f) IN [i \in 1..Len(D) |-> <<D[i], f[D[i]]>>]
(* joint probability by its definition: every node given its parents          *)
Full(f, In) == LET a == AsSeq(f) \o In IN
  Prod([i \in 1..Len(net) |-> NodeP(M0, 0, net[i], Restrict(AsSeq(f), Range(net[i].outs)), a)])
Joint(q, In) ==
  LET F == SetSeq({f \in [Vs -> {0, 1}] : \A i \in 1..Len(q) : f[q[i][1]] = q[i][2]}) IN
  Sum([i \in 1..Len(F) |-> Full(F[i], In)])
Eq(a, b) == Rat(a) = Rat(b)
Splits == {<<T, K>> \in (SUBSET Vs) \X (SUBSET Vs) : T # {} /\ T \cap K = {}}
Asg(S) == {AsSeq(f) : f \in [S -> {0, 1}]}
Value(P) == Sum([i \in 1..Len(P) |-> Times(P[i].p, P[i].w)])
Fine(P) == ~Stuck(P)

(* the weights are unbiased for the joint: the estimate is consistent          *)
Unbiased == net = <<>> \/ \A In \in Ext, S \in SUBSET Vs : \A q \in Asg(S) :
  LET P == Particles(net, M0, 0, {}, q, In) IN Fine(P) => Eq(Value(P), Joint(q, In))
(* with every needed parent given there is one particle: the exact joint        *)
Exact == net = <<>> \/ \A In \in Ext, S \in SUBSET Vs : \A q \in Asg(S) :
  LET P == Particles(net, M0, 0, {}, q, In) IN
  (Needed(G, {}, S) = {}) => (Len(P) = 1 /\ Eq(P[1].p, One) /\ (Fine(P) => Eq(P[1].w, Joint(q, In))))
(* simulated particles, weighted, have the joint law of targets and given       *)
Proposal == net = <<>> \/ \A In \in Ext, s \in Splits : \A k \in Asg(s[2]) :
  LET P == Particles(net, M0, 0, s[1], k, In) IN Fine(P) =>
    \A t \in Asg(s[1]) :
      LET Pt == SelectSeq(P, LAMBDA x : AsKey(Restrict(x.a, s[1])) = t) IN
      Eq(Value(Pt), Joint(t \o k, In))
Probabilities == net = <<>> \/ \A In \in Ext, s \in Splits : \A k \in Asg(s[2]) :
  LET P == Particles(net, M0, 0, s[1], k, In) IN Fine(P) =>
    Eq(Sum([i \in 1..Len(P) |-> P[i].p]), One)
(* inputs given as constraints or as inputs are the same                         *)
InputsAreGiven == net = <<>> \/ \A In \in Ext, S \in SUBSET Vs : \A q \in Asg(S) :
  LET P == Particles(net, M0, 0, {}, q, In)  R == Particles(net, M0, 0, {}, q \o In, <<>>) IN
  Eq(Value(P), Value(R))
Orders == net = <<>> \/ Ordered(G, Order(G, <<>>))
=============================================================================
