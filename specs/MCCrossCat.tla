----------------------------- MODULE MCCrossCat -----------------------------
(* The state machine of CrossCat.tla in a small scope.  The state is the    *)
(* partition structure with INCREMENTALLY maintained statistics, as an      *)
(* implementation would keep it; the clauses of CrossCat.tla recompute      *)
(* everything from the data.  TLC checks, over every reachable state and    *)
(* every request, that                                                      *)
(*   Cohere     incremental bookkeeping stays coherent,                     *)
(*   Ledger     the dataset is the fold of the accepted requests,           *)
(*   Accepted   every successor satisfies the clauses of its request,       *)
(*   Rejected   every perturbed successor breaks one (the clauses have      *)
(*              teeth).                                                     *)
(* With IOEnv.EDGES set, every edge is written out and replayed into the    *)
(* real State.                                                              *)
EXTENDS CrossCat, Json, IOUtils, CSV
CONSTANTS AllCols, Views, Clusters, MaxRows, Types, Constraints, Moves
\* Types: subset of {"bernoulli", "categorical"}; Constraints: set of <<cd, ci>>
\* Moves: TRUE to include inference moves

VARIABLES outs,   \* sequence of columns
          x,      \* column -> sequence of cells
          ty,     \* column -> type
          zv,     \* column -> view
          z,      \* view -> sequence of clusters
          st,     \* <<column, cluster>> -> [n, s], kept incrementally
          cd, ci,
          ledger, \* ghost: the cells as a fold of the requests
          last    \* the request taken and whether it was accepted
vars == <<outs, x, ty, zv, z, st, cd, ci, ledger, last>>

Vals == {0, 1}
CellVals == Vals \cup {NaN}
Bad == 2                                 \* outside the support of both types
N == IF outs = <<>> THEN 0 ELSE Len(x[outs[1]])
Cs == AsSet(outs)
InUse == {zv[c] : c \in Cs}
Zero2(t) == IF t = "bernoulli" THEN [n |-> 0, s |-> <<0>>] ELSE [n |-> 0, s |-> <<0, 0>>]
Bump(r, t, v, d) == [n |-> r.n + d,
  s |-> IF t = "bernoulli" THEN <<r.s[1] + d * v>> ELSE [r.s EXCEPT ![v + 1] = @ + d]]

(* ---- the snapshot this state stands for -------------------------------- *)
Pairs2(f) == LET D == Sorted(DOMAIN f) IN [i \in 1..Len(D) |-> <<D[i], f[D[i]]>>]
Tok(v) == IF v = NaN THEN NaN ELSE v + 1
ColSnap(c) ==
  LET W == z[zv[c]]
      seen == Sorted({r \in 1..N : x[c][r] # NaN})
      miss == Sorted({r \in 1..N : x[c][r] = NaN})
      ks == Sorted({k \in Clusters : <<c, k>> \in DOMAIN st})
  IN [id |-> c, type |-> ty[c], k |-> 2, den |-> 1, lo |-> 0, hi |-> 1, fix |-> <<>>, ins |-> <<>>,
      x |-> x[c], tok |-> [r \in 1..N |-> Tok(x[c][r])], hy |-> <<7>>, par |-> <<>>,
      zr |-> [i \in 1..Len(seen) |-> <<seen[i] - 1, W[seen[i]]>>],
      zi |-> [i \in 1..Len(miss) |-> <<miss[i] - 1, W[miss[i]]>>],
      cl |-> [i \in 1..Len(ks) |-> [k |-> ks[i], n |-> st[<<c, ks[i]>>].n,
                                    s |-> st[<<c, ks[i]>>].s, fs |-> <<>>]]]
ViewSnap(v) ==
  LET ks == Sorted(AsSet(z[v])) IN
  [id |-> v, cols |-> Sorted({c \in Cs : zv[c] = v}), z |-> z[v],
   nk |-> [i \in 1..Len(ks) |-> <<ks[i], Cardinality({r \in 1..N : z[v][r] = ks[i]})>>], alpha |-> 5]
Snap == LET vs == Sorted(InUse) IN
  [n |-> N, outs |-> outs, cols |-> [i \in 1..Len(outs) |-> ColSnap(outs[i])],
   zv |-> Pairs2(zv), nv |-> [i \in 1..Len(vs) |-> <<vs[i], Cardinality({c \in Cs : zv[c] = vs[i]})>>],
   views |-> [i \in 1..Len(vs) |-> ViewSnap(vs[i])], alpha |-> 5, cd |-> cd, ci |-> ci,
   iters |-> <<>>, diag |-> <<>>, hooked |-> <<>>, score |-> 0, conditional |-> 0, composite |-> 0]

(* ---- requests ----------------------------------------------------------- *)
Ass(c, v) == <<c, Tok(v), v, v, 1>>
AssSeq(f) == LET D == Sorted(DOMAIN f) IN [i \in 1..Len(D) |-> Ass(D[i], f[D[i]])]
CD(c, t) == [id |-> c, type |-> t, k |-> 2, den |-> 1, lo |-> 0, hi |-> 1, fix |-> <<>>, ins |-> <<>>]
Partial(S, W) == UNION {[D -> W] : D \in SUBSET S}
Refuse(S, o) == ~Admissible(S, o) /\ last' = [o |-> o, ok |-> FALSE]
             /\ UNCHANGED <<outs, x, ty, zv, z, st, cd, ci, ledger>>
Take(S, o) == Admissible(S, o) /\ last' = [o |-> o, ok |-> TRUE]

AddTo(s, c, t, k, v) ==           \* a cell joins a cluster
  LET s0 == IF <<c, k>> \in DOMAIN s THEN s
            ELSE [q \in DOMAIN s \cup {<<c, k>>} |-> IF q = <<c, k>> THEN Zero2(t) ELSE s[q]]
  IN IF v = NaN THEN s0 ELSE [s0 EXCEPT ![<<c, k>>] = Bump(@, t, v, 1)]
RemoveFrom(s, c, t, k, v, empty) ==  \* a cell leaves; empty: the cluster has no rows left
  LET s1 == IF v = NaN THEN s ELSE [s EXCEPT ![<<c, k>>] = Bump(@, t, v, -1)]
  IN IF empty THEN [q \in DOMAIN s1 \ {<<c, k>>} |-> s1[q]] ELSE s1
RECURSIVE JoinAll(_, _, _, _, _), LeaveAll(_, _, _, _, _, _)
JoinAll(s, S, t, k, v) ==
  IF S = {} THEN s ELSE LET c == Min(S) IN JoinAll(AddTo(s, c, t[c], k[c], v[c]), S \ {c}, t, k, v)
LeaveAll(s, S, t, k, v, e) ==
  IF S = {} THEN s
  ELSE LET c == Min(S) IN LeaveAll(RemoveFrom(s, c, t[c], k[c], v[c], e[c]), S \ {c}, t, k, v, e)

Incorporate(S) ==
  \E row \in {N, N - 1} :
  \E f \in (IF row = N THEN Partial(Cs, Vals \cup {Bad}) ELSE {<<>>}), g \in [InUse -> Clusters] :
    LET o == [op |-> "incorporate", row |-> row, obs |-> AssSeq(f),
              clus |-> Pairs2(g), inputs |-> FALSE]
        cell(c) == IF c \in DOMAIN f THEN f[c] ELSE NaN
        ext(xx) == [c \in Cs |-> Append(xx[c], cell(c))]
    IN \/ Refuse(S, o) /\ (\A v \in InUse : g[v] = Min(Clusters))
       \/ /\ N < MaxRows /\ Take(S, o)
          /\ x' = ext(x) /\ ledger' = ext(ledger)
          /\ z' = [v \in InUse |-> Append(z[v], g[v])]
          /\ st' = JoinAll(st, Cs, ty, [c \in Cs |-> g[zv[c]]], [c \in Cs |-> cell(c)])
          /\ UNCHANGED <<outs, ty, zv, cd, ci>>
Unincorporate(S) ==
  \E row \in {N, N - 1, 0} :
    LET o == [op |-> "unincorporate", row |-> row] IN
    \/ Refuse(S, o)
    \/ /\ row = N - 1 /\ Take(S, o)
       /\ x' = [c \in Cs |-> SubSeq(x[c], 1, N - 1)] /\ ledger' = [c \in Cs |-> SubSeq(ledger[c], 1, N - 1)]
       /\ z' = [v \in InUse |-> SubSeq(z[v], 1, N - 1)]
       /\ st' = LeaveAll(st, Cs, ty, [c \in Cs |-> z[zv[c]][N]], [c \in Cs |-> x[c][N]],
                [c \in Cs |-> \A r \in 1..(N - 1) : z[zv[c]][r] # z[zv[c]][N]])
       /\ UNCHANGED <<outs, ty, zv, cd, ci>>
ForceCell(S) ==
  \E f \in Partial(Cs, Vals \cup {Bad}) \ {<<>>}, row \in 0..N :
    LET o == [op |-> "force_cell", row |-> row, obs |-> AssSeq(f)] IN
    \/ Refuse(S, o)
    \/ /\ Take(S, o)
       /\ x' = [c \in Cs |-> IF c \in DOMAIN f THEN [x[c] EXCEPT ![row + 1] = f[c]] ELSE x[c]]
       /\ ledger' = [c \in Cs |-> IF c \in DOMAIN f THEN [ledger[c] EXCEPT ![row + 1] = f[c]] ELSE ledger[c]]
       /\ st' = JoinAll(st, DOMAIN f, ty, [c \in Cs |-> z[zv[c]][row + 1]], f)
       /\ UNCHANGED <<outs, ty, zv, z, cd, ci>>
RECURSIVE BuildCol(_, _, _, _, _, _)
BuildCol(s, c, t, col, W, r) ==
  IF r > Len(col) THEN s ELSE BuildCol(AddTo(s, c, t, W[r], col[r]), c, t, col, W, r + 1)
IncorporateDim(S) ==
  \E c \in AllCols, t \in Types, v \in Views, len \in {N, N + 1} :
  \E col \in [1..len -> CellVals \cup (IF len = N THEN {Bad} ELSE {})] :
    LET o == [op |-> "incorporate_dim", t |-> [i \in 1..len |-> Ass(c, col[i])],
              outputs |-> <<c>>, inputs |-> FALSE, v |-> v, col |-> CD(c, t)] IN
    \/ Refuse(S, o) /\ v = Min(Views)
    \/ /\ Take(S, o) /\ (v \in InUse \/ N = 1)   \* a fresh view draws its rows at random
       /\ outs' = Append(outs, c) /\ x' = [d \in Cs \cup {c} |-> IF d = c THEN col ELSE x[d]]
       /\ ledger' = [d \in Cs \cup {c} |-> IF d = c THEN col ELSE ledger[d]]
       /\ ty' = [d \in Cs \cup {c} |-> IF d = c THEN t ELSE ty[d]]
       /\ zv' = [d \in Cs \cup {c} |-> IF d = c THEN v ELSE zv[d]]
       /\ z' = [w \in InUse \cup {v} |-> IF w \in InUse THEN z[w] ELSE <<0>>]
       /\ st' = BuildCol(st, c, t, col, z'[v], 1)
       /\ UNCHANGED <<cd, ci>>
UnincorporateDim(S) ==
  \E c \in AllCols :
    LET o == [op |-> "unincorporate_dim", c |-> c]  R == Cs \ {c} IN
    \/ Refuse(S, o)
    \/ /\ Take(S, o)
       /\ outs' = SelectSeq(outs, LAMBDA d : d # c)
       /\ x' = [d \in R |-> x[d]] /\ ledger' = [d \in R |-> ledger[d]]
       /\ ty' = [d \in R |-> ty[d]] /\ zv' = [d \in R |-> zv[d]]
       /\ z' = [v \in {zv[d] : d \in R} |-> z[v]]
       /\ st' = [q \in {q \in DOMAIN st : q[1] # c} |-> st[q]]
       /\ LET keep(b) == SelectSeq(b, LAMBDA d : d # c)
              bs == [i \in 1..Len(cd) |-> keep(cd[i])]
          IN cd' = SelectSeq(bs, LAMBDA b : Len(b) > 1)
       /\ ci' = SelectSeq(ci, LAMBDA p : c \notin AsSet(p))
UpdateType(S) ==
  \E c \in Cs, t \in Types :
    LET o == [op |-> "update_cctype", c |-> c, col |-> CD(c, t),
              t |-> [i \in 1..N |-> Ass(c, x[c][i])]] IN
    /\ Take(S, o)
    /\ ty' = [ty EXCEPT ![c] = t]
    /\ st' = BuildCol([q \in {q \in DOMAIN st : q[1] # c} |-> st[q]], c, t, x[c], z[zv[c]], 1)
    /\ UNCHANGED <<outs, x, zv, z, cd, ci, ledger>>
(* inference: one row or one column moves *)
Tr(ks, cols, rows) ==
  [op |-> "transition", kernels |-> ks, n |-> 1, cols |-> cols, allcols |-> FALSE, views |-> <<>>,
   allviews |-> TRUE, rows |-> rows, allrows |-> FALSE, check |-> 0, timed |-> TRUE]
MoveRow(S) ==
  \E v \in InUse, r \in 1..N, k \in Clusters :
    LET o == Tr(<<"rows">>, Sorted({c \in Cs : zv[c] = v}), <<r - 1>>)
        D == {c \in Cs : zv[c] = v}
        gone == LeaveAll(st, D, ty, [c \in D |-> z[v][r]], [c \in D |-> x[c][r]],
                         [c \in D |-> \A q \in (1..N) \ {r} : z[v][q] # z[v][r]])
    IN /\ Moves /\ Take(S, o)
       /\ z' = [z EXCEPT ![v][r] = k]
       /\ st' = JoinAll(gone, D, ty, [c \in D |-> k], [c \in D |-> x[c][r]])
       /\ UNCHANGED <<outs, x, ty, zv, cd, ci, ledger>>
MoveCol(S) ==
  \E c \in Cs, v \in Views :
  \E W \in (IF v \in InUse THEN {z[v]} ELSE [1..N -> Clusters]) :
    LET o == Tr(<<"columns">>, <<c>>, <<>>) IN
    /\ Moves /\ Take(S, o)
    /\ \A i \in 1..Len(ci) : c \in AsSet(ci[i]) => \A d \in AsSet(ci[i]) \ {c} : d \notin Cs \/ zv[d] # v
    /\ zv' = [zv EXCEPT ![c] = v]
    /\ z' = [w \in {zv'[d] : d \in Cs} |-> IF w \in InUse THEN z[w] ELSE W]
    /\ st' = BuildCol([q \in {q \in DOMAIN st : q[1] # c} |-> st[q]], c, ty[c], x[c], z'[v], 1)
    /\ UNCHANGED <<outs, x, ty, cd, ci, ledger>>
Query == /\ last' = [o |-> [op |-> "query"], ok |-> TRUE]
         /\ UNCHANGED <<outs, x, ty, zv, z, st, cd, ci, ledger>>

Init ==
  /\ \E S \in SUBSET AllCols \ {{}} : outs = Sorted(S)
  /\ x = [c \in AsSet(outs) |-> <<0>>]
  /\ ledger = x
  /\ ty \in [AsSet(outs) -> Types]
  /\ zv \in [AsSet(outs) -> Views]
  /\ z \in [{zv[c] : c \in AsSet(outs)} -> {<<k>> : k \in Clusters}]
  /\ st = [q \in {<<c, z[zv[c]][1]>> : c \in AsSet(outs)} |-> Bump(Zero2(ty[q[1]]), ty[q[1]], 0, 1)]
  /\ \E k \in Constraints : cd = k[1] /\ ci = k[2]
  /\ \A i \in 1..Len(cd) : AsSet(cd[i]) \subseteq AsSet(outs) /\ \A a, b \in AsSet(cd[i]) : zv[a] = zv[b]
  /\ \A i \in 1..Len(ci) : AsSet(ci[i]) \subseteq AsSet(outs) /\ zv[ci[i][1]] # zv[ci[i][2]]
  /\ last = [o |-> [op |-> "none"], ok |-> TRUE]
(* a column added to a view, or moved, may violate no constraint it has      *)
Next == LET S == TLCEval(Snap) IN
  Incorporate(S) \/ Unincorporate(S) \/ ForceCell(S) \/ IncorporateDim(S) \/ UnincorporateDim(S)
  \/ UpdateType(S) \/ MoveRow(S) \/ MoveCol(S) \/ Query
Spec == Init /\ [][Next]_vars
View == <<outs, x, ty, zv, z, st, cd, ci>>

(* ---- properties --------------------------------------------------------- *)
Cohere == \A S \in {Snap} : Coherent(S) = {}
Ledger == ledger = x
Accepted == [][\A S \in {Snap}, T \in {Snap'} :
                Verdict(S, {}, last'.o, last'.ok, T, {}) = {}]_vars

(* perturbations of a snapshot, each breaking the model in one way *)
Mutants(S) ==
  LET n == S.n
      cell(i, r, v) == [S EXCEPT !.cols[i].x[r] = v, !.cols[i].tok[r] = Tok(v)]
  IN {cell(i, r, v) : i \in 1..Len(S.cols), r \in 1..n, v \in CellVals}
     \cup {[S EXCEPT !.cols[i].cl[j].n = @ + 1] : i \in 1..Len(S.cols), j \in 1..1}
     \cup {[S EXCEPT !.cols[i].cl[1].s[1] = @ + 1] : i \in 1..Len(S.cols)}
     \cup {[S EXCEPT !.cols[i].cl = Tail(@)] : i \in {q \in 1..Len(S.cols) : S.cols[q].cl[1].n > 0}}
     \cup {[S EXCEPT !.cols[i].zr = <<>>, !.cols[i].zi = <<>>] : i \in 1..Len(S.cols)}
     \cup {[S EXCEPT !.cols[i].hy = <<8>>] : i \in 1..Len(S.cols)}
     \cup {[S EXCEPT !.views[i].nk[1][2] = @ + 1] : i \in 1..Len(S.views)}
     \cup {[S EXCEPT !.views[i].alpha = 6] : i \in 1..Len(S.views)}
     \cup {[S EXCEPT !.nv[i][2] = @ + 1] : i \in 1..Len(S.nv)}
     \cup {[S EXCEPT !.alpha = 6], [S EXCEPT !.outs = Tail(@)], [S EXCEPT !.n = @ + 1],
           [S EXCEPT !.iters = <<<<"rows", 3>>>>], [S EXCEPT !.composite = 1],
           [S EXCEPT !.diag = <<[alpha |-> 5, zv |-> <<>>, score |-> 0]>>]}
     \cup (IF Len(S.cd) > 0 THEN {[S EXCEPT !.cd = <<>>]} ELSE {})
     \cup (IF Len(S.ci) > 0 THEN {[S EXCEPT !.ci = <<>>]} ELSE {})
\* what a request may legitimately leave open
Subject(o) == CASE o.op = "incorporate_dim" -> {o.outputs[1]} [] o.op = "update_cctype" -> {o.c}
                [] o.op = "transition" /\ o.kernels = <<"columns">> -> {o.cols[1]} [] OTHER -> {}
Open(o, S, T) ==
  \/ (o.op = "transition" /\ T.iters # <<>>)               \* timed: the round was run
  \/ (o.op \in {"incorporate_dim", "update_cctype"} /\     \* hyperparameters are drawn
        \E i \in 1..Len(S.cols) : S.cols[i].id \in Subject(o) /\ T = [S EXCEPT !.cols[i].hy = <<8>>])
  \/ (o.op \in {"incorporate_dim", "transition"} /\        \* a new view draws its concentration
        \E i \in 1..Len(S.views) : AsSet(S.views[i].cols) = Subject(o) /\ T = [S EXCEPT !.views[i].alpha = 6])
Rejected == [][\A S \in {Snap}, P \in {Snap'} :
                 \A T \in Mutants(P) \ {P} :
                   Open(last'.o, P, T) \/ Verdict(S, {}, last'.o, last'.ok, T, Coherent(T)) # {}]_vars
Size == N <= MaxRows

MCons == {<<<<>>, <<>>>>, <<<< <<0, 1>> >>, <<>>>>, <<<<>>, << <<0, 1>> >>>>}
(* ---- edges for replay ---------------------------------------------------- *)
A == [outs |-> outs, x |-> Pairs2(x), ty |-> Pairs2(ty), zv |-> Pairs2(zv), z |-> Pairs2(z),
      cd |-> cd, ci |-> ci,
      st |-> LET D == SetSeq(DOMAIN st) IN [i \in 1..Len(D) |-> <<D[i], st[D[i]]>>]]
Emit == CSVWrite("%1$s", <<ToJson([pre |-> A, o |-> last'.o, ok |-> last'.ok, post |-> A'])>>, IOEnv.EDGES)
=============================================================================
