------------------------------ MODULE Lovecat ------------------------------
(* Handing a model to an external inference backend and adopting its        *)
(* answer, as requests of the state machine of CrossCat.tla.                 *)
(*                                                                          *)
(* The backend numbers everything from zero: columns by their position in   *)
(* the outputs, views and clusters densely, levels of a categorical column  *)
(* in any order the message itself states.                                  *)
EXTENDS CrossCat

Rank(x, X) == Cardinality({y \in X : y < x})
Dense(s) == [i \in 1..Len(s) |-> Rank(s[i], AsSet(s))]
Tally(s) == LET K == Sorted(AsSet(s)) IN
            [i \in 1..Len(K) |-> Cardinality({j \in 1..Len(s) : s[j] = K[i]})]
Position(S, c) == (CHOOSE i \in 1..Len(S.outs) : S.outs[i] = c) - 1

(* ---- the message --------------------------------------------------------- *)
SeenIn(col) == AsSet(col.x) \ {NaN}
(* levels: the sequence of values the codes 0, 1, .. of the column stand for *)
CellSent(col, levels, r) ==
  IF col.x[r] = NaN THEN NaN
  ELSE IF col.type = "categorical" THEN (CHOOSE i \in 1..Len(levels) : levels[i] = col.x[r]) - 1
  ELSE col.tok[r]
Numbering(col, levels) ==
  IF col.type # "categorical" THEN levels = <<>>
  ELSE AsSet(levels) = SeenIn(col) /\ Len(levels) = Cardinality(SeenIn(col))
ViewOrder(S) == Sorted(ViewIds(S))
(* dependence blocks: every member with its whole block                     *)
Blocks(S) == UNION {{<<Position(S, c), {Position(S, d) : d \in AsSet(S.cd[i])}>> : c \in AsSet(S.cd[i])}
                    : i \in 1..Len(S.cd)}
(* independent pairs, as a set of positions each column is kept apart from  *)
ApartPairs(S) == {{Position(S, S.ci[i][1]), Position(S, S.ci[i][2])} : i \in 1..Len(S.ci)}

(* any numbering of the levels does; this is one                            *)
Standard(col) == IF col.type = "categorical" THEN Sorted(SeenIn(col)) ELSE <<>>
Message(S) ==
  LET W == ViewOrder(S) IN
  [kinds   |-> [i \in 1..Len(S.cols) |-> IF S.cols[i].type = "categorical" THEN 1 ELSE 0],
   names   |-> S.outs,
   levels  |-> [i \in 1..Len(S.cols) |->
                  Standard(S.cols[i])],
   table   |-> [r \in 1..S.n |-> [i \in 1..Len(S.cols) |-> CellSent(S.cols[i], Standard(S.cols[i]), r)]],
   hypers  |-> [i \in 1..Len(S.cols) |-> S.cols[i].hy],
   assign  |-> Dense([i \in 1..Len(S.outs) |-> Get(S.zv, S.outs[i])]),
   counts  |-> Tally([i \in 1..Len(S.outs) |-> Get(S.zv, S.outs[i])]),
   alpha   |-> S.alpha,
   parts   |-> [j \in 1..Len(W) |-> Dense(V(S, W[j]).z)],
   pcounts |-> [j \in 1..Len(W) |-> Tally(V(S, W[j]).z)],
   palphas |-> [j \in 1..Len(W) |-> V(S, W[j]).alpha],
   members |-> [j \in 1..Len(W) |-> Sorted({c \in Outs(S) : Get(S.zv, c) = W[j]})],
   slots   |-> [j \in 1..Len(W) |-> <<Cardinality({c \in Outs(S) : Get(S.zv, c) = W[j]}),
                                      Cardinality(AsSet(V(S, W[j]).z))>>],
   dep     |-> Blocks(S), ind |-> ApartPairs(S)]

(* Any dense numbering of views and clusters describes the model.           *)
DenseSeq(s) == AsSet(s) = 0..(Cardinality(AsSet(s)) - 1)
HowMany(s, k) == Cardinality({i \in 1..Len(s) : s[i] = k})
AssignOK(S, m) ==
  /\ Len(m.assign) = Len(S.outs) /\ DenseSeq(m.assign)
  /\ \A c, d \in Outs(S) : (Get(S.zv, c) = Get(S.zv, d))
                           <=> (m.assign[Position(S, c) + 1] = m.assign[Position(S, d) + 1])
  /\ {Len(m.counts), Len(m.members), Len(m.parts), Len(m.pcounts), Len(m.palphas), Len(m.slots)}
       = {Cardinality(ViewIds(S))}
  /\ \A j \in 1..Len(m.counts) : m.counts[j] = HowMany(m.assign, j - 1)
       /\ m.members[j] = Sorted({c \in Outs(S) : m.assign[Position(S, c) + 1] = j - 1})
Described(S, m, j) == VOf(S, m.members[j][1])       \* the view number j stands for
RowsOK(S, m) ==
  \A j \in 1..Len(m.parts) :
    /\ Len(m.parts[j]) = S.n /\ DenseSeq(m.parts[j]) /\ Comember(m.parts[j], Described(S, m, j).z, 1..S.n)
    /\ m.pcounts[j] = [k \in 1..Cardinality(AsSet(m.parts[j])) |-> HowMany(m.parts[j], k - 1)]
    /\ m.slots[j] = <<m.counts[j], Len(m.pcounts[j])>>

(* m as recorded: dep and ind are sequences of pairs there                  *)
Sent(S, m) ==
  LET e == Message(S)
      dep == {<<m.dep[i][1], AsSet(m.dep[i][2])>> : i \in 1..Len(m.dep)}
      ind == {AsSet(m.ind[i]) : i \in 1..Len(m.ind)}
  IN Clause(m.names = e.names /\ m.kinds = e.kinds, "C19:columns sent")
  \cup (IF Len(m.levels) # Len(S.cols) \/ \E i \in 1..Len(S.cols) : ~Numbering(S.cols[i], m.levels[i])
        THEN {"C19:levels sent"}
        ELSE Clause(m.table = [r \in 1..S.n |-> [i \in 1..Len(S.cols) |-> CellSent(S.cols[i], m.levels[i], r)]],
                    "C19:dataset sent"))
  \cup Clause(m.hypers = e.hypers, "C19:hyperparameters sent")
  \cup (IF ~AssignOK(S, m) THEN {"C19:column partition sent"}
        ELSE Clause(RowsOK(S, m), "C19:row partitions sent")
             \cup Clause(m.alpha = e.alpha /\ \A j \in 1..Len(m.palphas) : m.palphas[j] = Described(S, m, j).alpha,
                         "C19:concentrations sent"))
  \cup Clause(dep = e.dep /\ ind = e.ind, "C19:dependence constraints sent")

(* ---- what is asked of the backend ---------------------------------------- *)
(* o.n, o.secs: -1 = not given                                               *)
Steps(o) == IF o.n # -1 THEN o.n ELSE IF o.secs # -1 THEN 150000 ELSE 1
Limit(o) == IF o.secs # -1 THEN o.secs ELSE -1
Asked(S, o) ==
  LET a == o.asked IN
     Clause(a.times = 1, "C19:the backend is asked once")
  \cup Clause(a.steps = Steps(o) /\ a.limit = Limit(o), "C19:amount of inference")
  \cup Clause(a.kernels = o.kernels, "C19:kernels asked for")
  \cup Clause(a.cols = [i \in 1..Len(o.cols) |-> Position(S, o.cols[i])] /\ a.rows = o.rows,
              "C19:columns and rows asked for")
  \cup Clause(a.every = o.check, "C19:checkpoints asked for")

(* ---- adopting the answer --------------------------------------------------- *)
(* o.ans: assign, parts, palphas, alpha, diag                                *)
Adopted(S, o, T) ==
  LET a == o.ans
      Of(c) == a.assign[Position(S, c) + 1]
  IN Clause(\A c, d \in Outs(S) : (Get(T.zv, c) = Get(T.zv, d)) <=> (Of(c) = Of(d)),
            "C19:column partition adopted")
  \cup Clause(T.n = S.n /\ \A c \in Outs(S) : Comember(VOf(T, c).z, a.parts[Of(c) + 1], 1..S.n),
              "C19:row partitions adopted")
  \cup Clause(o.level = "state" \/ (T.alpha = a.alpha
              /\ \A c \in Outs(S) : VOf(T, c).alpha = a.palphas[Of(c) + 1]),
              "C19:concentrations adopted")
  \cup (IF o.level = "state" THEN {} ELSE HypersKept(S, T, {}))
  \cup Clause(T.diag = S.diag \o [i \in 1..Len(a.diag) |->
                 [score |-> a.diag[i].score, alpha |-> a.diag[i].alpha,
                  zv |-> LET D == Sorted(Outs(S)) IN
                         [j \in 1..Len(D) |-> <<D[j], a.diag[i].assign[Position(S, D[j]) + 1]>>]]],
              "C19:checkpoints adopted")
  \cup (IF o.level = "state" THEN OnlyIters(S, T, {"column_hypers", "alpha", "view_alphas"})
        ELSE OnlyIters(S, T, {}))

(* The backend knows numerical and categorical columns only; without an     *)
(* answer nothing changes.                                                  *)
Expressible(S) == S.conditional = 0 /\ \A i \in 1..Len(S.cols) : S.cols[i].type \in {"normal", "categorical"}
LoveAdmissible(S, o) == Expressible(S) /\ o.answers /\ AsSet(o.cols) \subseteq Outs(S)
LoveEffect(S, o, T) == Sent(S, o.sent) \cup Asked(S, o) \cup Adopted(S, o, T)

(* ---- loom ------------------------------------------------------------------ *)
(* The dataset of the project in use, whenever it was made: o.sent.names,   *)
(* types, table[row][column].  Loom numbers its features in an order of its *)
(* own, o.ans.features (columns by position); o.ans.kinds are sets of       *)
(* positions, o.ans.parts[kind][row].                                       *)
LoomType(t, k) ==
  CASE t = "bernoulli" -> "boolean" [] t = "poisson" -> "count"
    [] t = "categorical" -> IF k > 256 THEN "unbounded_categorical" ELSE "categorical"
    [] t \in {"beta", "exponential", "geometric", "lognormal", "normal", "normal_trunc", "vonmises"} -> "real"
    [] OTHER -> "none"
LoomKnows(S) == \A i \in 1..Len(S.cols) : LoomType(S.cols[i].type, S.cols[i].k) # "none"
LoomSent(S, m) ==
     Clause(m.names = S.outs, "C19:columns sent")
  \cup Clause(m.types = [i \in 1..Len(S.cols) |-> LoomType(S.cols[i].type, S.cols[i].k)], "C19:column types sent")
  \cup Clause(m.table = [r \in 1..S.n |-> [i \in 1..Len(S.cols) |-> S.cols[i].tok[r]]], "C19:dataset sent")
LoomAdopted(S, o, T) ==
  LET a == o.ans
      pos(c) == CHOOSE i \in 1..Len(a.features) : a.features[i] = c
      Of(c) == CHOOSE j \in 1..Len(a.kinds) : (pos(c) - 1) \in AsSet(a.kinds[j])
  IN Clause(\A c, d \in Outs(S) : (Get(T.zv, c) = Get(T.zv, d)) <=> (Of(c) = Of(d)), "C19:column partition adopted")
  \cup Clause(T.n = S.n /\ \A c \in Outs(S) : Comember(VOf(T, c).z, a.parts[Of(c)], 1..S.n),
              "C19:row partitions adopted")
  \cup Clause(T.diag = S.diag, "C19:checkpoints adopted")
  \cup (IF o.level = "direct"
        THEN HypersKept(S, T, {}) \cup OnlyIters(S, T, {})
             \cup Clause(S.alpha = T.alpha, "C19:column concentration changed")
        ELSE LET K == {"column_hypers", "column_params", "alpha", "view_alphas"} IN
             OnlyIters(S, T, K)
             \cup Clause(o.level = "engine" \/ \A k \in K : Get0(T.iters, k) = Get0(S.iters, k) + 1,
                         "C19:parameters resampled once"))
LoomAdmissible(S, o) == LoomKnows(S) /\ o.plain /\ o.answers
LoomAsked(o) == Clause(o.asked.passes = (IF o.n = -1 THEN 1 ELSE o.n) /\ o.asked.sample = o.seed, "C19:amount of inference")
LoomVerdict(S, o, ok, T, cohT) ==
  IF Shape(T) # {} THEN Tag("C19:adopting broke ", Shape(T))
  ELSE IF ~ok THEN
     (IF LoomAdmissible(S, o) THEN {"C19:admissible request refused"} ELSE {})
     \cup Tag("C19:a refused request changed ", Differ(S, T))
  ELSE IF ~LoomAdmissible(S, o) THEN {"C19:inadmissible request accepted"}
  ELSE Tag("C19:adopting broke ", cohT) \cup Tag("C19:adopting changed ", DataEffect(S, o, T) \cup Kept(S, o, T))
       \cup LoomSent(S, o.sent) \cup LoomAsked(o) \cup LoomAdopted(S, o, T)

LoveVerdict(S, cohS, o, ok, T, cohT) ==
  IF o.op = "loom" THEN (IF cohS # {} THEN {} ELSE LoomVerdict(S, o, ok, T, cohT))
  ELSE IF o.op # "lovecat" THEN Verdict(S, cohS, o, ok, T, cohT)
  ELSE IF cohS # {} THEN {}
  ELSE IF Shape(T) # {} THEN Tag("C19:adopting broke ", Shape(T))
  ELSE IF ~ok THEN
     (IF LoveAdmissible(S, o) THEN {"C19:admissible request refused"} ELSE {})
     \cup Tag("C19:a refused request changed ", Differ(S, T))
  ELSE IF ~LoveAdmissible(S, o) THEN {"C19:inadmissible request accepted"}
  ELSE Tag("C19:adopting broke ", cohT) \cup Tag("C19:adopting changed ", DataEffect(S, o, T) \cup Kept(S, o, T))
       \cup LoveEffect(S, o, T)
=============================================================================
