------------------------------ MODULE NetQuery ------------------------------
(* Queries on a network of models, answered with weighted particles.        *)
(*                                                                          *)
(* net[i] is a node [outs, ins, kind, tab, v]:                              *)
(*   kind "cpt"   tab lists, for every assignment to ins (a sequence of     *)
(*                values), <<values, rows>>, rows = <<values of outs,       *)
(*                integer weight>>                                          *)
(*   kind "view"  the view v of the CrossCat model M (no inputs)            *)
(* Assignments are sequences of <<variable, value>> as in Mixture.tla.      *)
(* row = 0: a hypothetical row; otherwise the observed row `row` of M.      *)
EXTENDS Mixture

GraphOf(net) == [i \in 1..Len(net) |-> <<net[i].outs, net[i].ins>>]
ValuesOf(a, vs) == [j \in 1..Len(vs) |-> At(a, vs[j])]

(* ---- one node ------------------------------------------------------------ *)
RowsFor(n, a) == LET e == CHOOSE x \in Range(n.tab) : x[1] = ValuesOf(a, n.ins) IN e[2]
Fits(n, r, q) == \A j \in 1..Len(q) :
  r[1][CHOOSE u \in 1..Len(n.outs) : n.outs[u] = q[j][1]] = q[j][2]
Mass(n, q, a) ==           \* integer weight of the rows that agree with q
  LET R == SelectSeq(RowsFor(n, a), LAMBDA r : Fits(n, r, q)) IN ISum([j \in 1..Len(R) |-> R[j][2]])
(* density of q at node n, its inputs taken from a *)
NodeP(M, row, n, q, a) ==
  IF n.kind = "cpt" THEN Q(Mass(n, q, a), Mass(n, <<>>, a))
  ELSE IF row = 0 THEN Weighted(M, View(M, n.v), q)
  ELSE RowIn(M, View(M, n.v), q, View(M, n.v).z[row])
NodeZero(n, q, a) == n.kind = "cpt" /\ Mass(n, q, a) = 0
(* what node n may propose for its variables ts when q is given              *)
ValsOf(M, n, t) == IF n.kind = "cpt"
  THEN Sorted({r[1][CHOOSE u \in 1..Len(n.outs) : n.outs[u] = t] : r \in UNION {Range(e[2]) : e \in Range(n.tab)}})
  ELSE [j \in 1..Col(M, t).k |-> j - 1]
RECURSIVE Combos(_, _, _)
Combos(M, n, ts) ==
  IF ts = <<>> THEN <<<<>>>>
  ELSE LET R == Combos(M, n, Tail(ts))  vs == ValsOf(M, n, Head(ts)) IN
       [x \in 1..(Len(R) * Len(vs)) |->
          <<<<Head(ts), vs[((x - 1) % Len(vs)) + 1]>>>> \o R[((x - 1) \div Len(vs)) + 1]]
Proposals(M, row, n, ts, q, a) ==
  LET L == Combos(M, n, ts)
      S == SelectSeq(L, LAMBDA x : ~NodeZero(n, x \o q, a))
  IN [j \in 1..Len(S) |-> <<S[j], IF q = <<>> THEN NodeP(M, row, n, S[j], a)
                                  ELSE Div(NodeP(M, row, n, S[j] \o q, a), NodeP(M, row, n, q, a))>>]

(* ---- particles ------------------------------------------------------------ *)
(* A particle [a, p, w, z, e]: the assignment a is reached with probability  *)
(* p and has weight w; z: the weight is zero; e: a node was to propose given *)
(* something impossible.  Nodes are visited parents first; those with given  *)
(* values contribute their density, those with wanted ones propose them.     *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Extend(_, _, _, _, _, _, _)
Extend(net, M, row, ord, W, In, pt) ==
  IF ord = <<>> THEN <<pt>>
  ELSE LET n  == net[Head(ord)]
           kc == Restrict(pt.a, Range(n.outs))
           tg == SelectSeq(n.outs, LAMBDA v : v \in W)
           ia == pt.a \o In
           zero == kc # <<>> /\ NodeZero(n, kc, ia)
           w2 == IF kc = <<>> THEN pt.w ELSE Times(pt.w, NodeP(M, row, n, kc, ia))
       IN IF tg = <<>> THEN Extend(net, M, row, Tail(ord), W, In, [pt EXCEPT !.w = w2, !.z = @ \/ zero])
          ELSE IF zero THEN <<[pt EXCEPT !.e = TRUE]>>
          ELSE LET P == Proposals(M, row, n, tg, kc, ia) IN
               Flat([j \in 1..Len(P) |-> Extend(net, M, row, Tail(ord), W, In,
                      [pt EXCEPT !.a = @ \o P[j][1], !.p = Times(@, P[j][2]), !.w = w2])])
RECURSIVE Order(_, _)        \* an order of evaluation
Order(G, done) ==
  LET free == {i \in Nodes(G) \ Range(done) : ParentsOf(G, i) \subseteq Range(done)} IN
  IF free = {} THEN done ELSE Order(G, Append(done, Min(free)))
Particles(net, M, row, T, K, In) ==      \* T: set of wanted variables, K: given assignment
  LET G == GraphOf(net) IN
  Extend(net, M, row, Order(G, <<>>), T \cup Needed(G, T, KeysOf(K)), In,
         [a |-> K, p |-> One, w |-> One, z |-> FALSE, e |-> FALSE])

(* ---- what may be asked ------------------------------------------------------ *)
Missing(G, T, K, In) ==
  ((UNION {InsOf(G, i) : i \in Active(G, {}, T \cup K)}) \cap External(G)) \ (K \cup In)
Askable(net, T, K, In) ==
  LET G == GraphOf(net) IN
  /\ T \subseteq Produced(G) /\ K \subseteq Produced(G) \cup External(G)
  /\ Missing(G, T, K, In) = {}

(* ---- the law of an answer ---------------------------------------------------- *)
(* N independent particles: tuple number t of N out of m                       *)
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
Digit(t, j, m) == (((t - 1) \div Power(m, j - 1)) % m) + 1
Tuples(m, N) == [t \in 1..Power(m, N) |-> [j \in 1..N |-> Digit(t, j, m)]]
(* Particle i of the side s is referred to by symbols, and listed apart.       *)
SymP(s, i) == <<"s", "p", s, i>>
SymW(s, i) == <<"s", "w", s, i>>
TupleP(s, t) == Prod([j \in 1..Len(t) |-> SymP(s, t[j])])
TupleW(s, t) == Sum([j \in 1..Len(t) |-> SymW(s, t[j])])
AllZero(P, t) == \A j \in 1..Len(t) : P[t[j]].z
(* density of T given K: mean weight of the joint over mean weight of the      *)
(* given; <<probability, value>>, value <<>> where the answer is refused       *)
LogpdfLaw(J, MM, given, N) ==
  LET TJ == Tuples(Len(J), N)  TM == IF given THEN Tuples(Len(MM), N) ELSE <<<<>>>>
  IN [x \in 1..(Len(TJ) * Len(TM)) |->
        LET a == TJ[((x - 1) % Len(TJ)) + 1]  b == TM[((x - 1) \div Len(TJ)) + 1] IN
        IF given THEN <<Times(TupleP("j", a), TupleP("m", b)),
                        IF AllZero(MM, b) THEN <<>> ELSE Div(TupleW("j", a), TupleW("m", b))>>
        ELSE <<TupleP("j", a), Div(TupleW("j", a), I(N))>>]
(* a simulated row: one of N particles, by weight                              *)
Outcomes(P, T) == {Restrict(P[i].a, T) : i \in 1..Len(P)}
AsKey(a) == LET D == Sorted(KeysOf(a)) IN [i \in 1..Len(D) |-> <<D[i], At(a, D[i])>>]
SimulateLaw(P, T, N) ==
  LET TP == Tuples(Len(P), N)
      keys == SetSeq({AsKey(Restrict(P[i].a, T)) : i \in 1..Len(P)})
      mine(k, i) == AsKey(Restrict(P[i].a, T)) = k
      share(k, t) == Sum([j \in 1..Len(t) |-> IF mine(k, t[j]) THEN SymW("s", t[j]) ELSE Zero])
      good == SelectSeq(TP, LAMBDA t : ~AllZero(P, t))
      bad == SelectSeq(TP, LAMBDA t : AllZero(P, t))
  IN [rows |-> [x \in 1..Len(keys) |-> <<keys[x],
         Sum([u \in 1..Len(good) |-> IF N = 1
                THEN IF mine(keys[x], good[u][1]) THEN SymP("s", good[u][1]) ELSE Zero
                ELSE Prod(<<TupleP("s", good[u]), Div(share(keys[x], good[u]), TupleW("s", good[u]))>>)])>>],
      refused |-> Sum([u \in 1..Len(bad) |-> TupleP("s", bad[u])])]

Listed(P) == [i \in 1..Len(P) |-> <<P[i].p, P[i].w>>]
Stuck(P) == \E i \in 1..Len(P) : P[i].e
(* how many particles a query has *)
SizeLogpdf(net, M, row, T, K, In) ==
  IF ~Askable(net, KeysOf(T), KeysOf(K), KeysOf(In)) THEN [ok |-> 0]
  ELSE LET J == Particles(net, M, row, {}, T \o K, In)  MM == Particles(net, M, row, {}, K, In) IN
       [ok |-> IF Stuck(J) \/ Stuck(MM) THEN 2 ELSE 1, a |-> Len(J), b |-> IF K = <<>> THEN 1 ELSE Len(MM)]
SizeSimulate(net, M, row, T, K, In) ==
  IF ~Askable(net, Range(T), KeysOf(K), KeysOf(In)) THEN [ok |-> 0]
  ELSE LET P == Particles(net, M, row, Range(T), K, In) IN
       [ok |-> IF Stuck(P) THEN 2 ELSE 1, a |-> Len(P), b |-> 1]
QueryLogpdf(net, M, row, T, K, In, N) ==
  IF ~Askable(net, KeysOf(T), KeysOf(K), KeysOf(In)) THEN [ok |-> 0]
  ELSE LET J == Particles(net, M, row, {}, T \o K, In)  MM == Particles(net, M, row, {}, K, In) IN
       IF Stuck(J) \/ Stuck(MM) THEN [ok |-> 2]
       ELSE [ok |-> 1, j |-> Listed(J), m |-> Listed(MM),
             law |-> LogpdfLaw(J, MM, K # <<>>, N)]
QuerySimulate(net, M, row, T, K, In, N) ==
  IF ~Askable(net, Range(T), KeysOf(K), KeysOf(In)) THEN [ok |-> 0]
  ELSE LET P == Particles(net, M, row, Range(T), K, In) IN
       IF Stuck(P) THEN [ok |-> 2]
       ELSE [ok |-> 1, s |-> Listed(P), law |-> SimulateLaw(P, Range(T), N)]
=============================================================================
