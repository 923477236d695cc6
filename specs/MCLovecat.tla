----------------------------- MODULE MCLovecat -----------------------------
(* Theorems of Lovecat.tla over every model of a small scope.  The state is *)
(* a pair of models S, T over the same data; choices are made in steps so    *)
(* that workers share them.                                                  *)
EXTENDS Lovecat
CONSTANTS ColNames,   \* sequence of outputs
          Rows, ViewLabels, ClusterLabels, Cells

MCols == <<7, 2>>
MCols3 == <<7, 2, 9>>
VARIABLES zv, z, zv2, z2, x, stage
vars == <<zv, z, zv2, z2, x, stage>>
Cs == AsSet(ColNames)
InUse(f) == {f[c] : c \in Cs}
Parts(f) == [InUse(f) -> [1..Rows -> ClusterLabels]]
Init == /\ zv \in [Cs -> ViewLabels] /\ z = <<>> /\ zv2 = <<>> /\ z2 = <<>> /\ x = <<>> /\ stage = 0
Next == \/ stage = 0 /\ stage' = 1 /\ z' \in Parts(zv) /\ UNCHANGED <<zv, zv2, z2, x>>
        \/ stage = 1 /\ stage' = 2 /\ zv2' \in [Cs -> ViewLabels] /\ UNCHANGED <<zv, z, z2, x>>
        \/ stage = 2 /\ stage' = 3 /\ z2' \in Parts(zv2) /\ UNCHANGED <<zv, z, zv2, x>>
        \/ stage = 1 /\ stage' = 4 /\ x' \in [Cs -> [1..Rows -> Cells \cup {NaN}]] /\ UNCHANGED <<zv, z, zv2, z2>>
Spec == Init /\ [][Next]_vars


Model(f, g, cells) ==
  LET W == Sorted(InUse(f))  D == Sorted(Cs) IN
  [n |-> Rows, outs |-> ColNames,
   cols |-> [i \in 1..Len(ColNames) |->
      [id |-> ColNames[i], type |-> IF i = 1 THEN "normal" ELSE "categorical", k |-> 9, hy |-> <<i>>, par |-> <<>>,
       x |-> cells[ColNames[i]],
       tok |-> [r \in 1..Rows |-> IF cells[ColNames[i]][r] = NaN THEN NaN ELSE 100 + cells[ColNames[i]][r]]]],
   zv |-> [i \in 1..Len(D) |-> <<D[i], f[D[i]]>>],
   views |-> [j \in 1..Len(W) |-> [id |-> W[j], cols |-> Sorted({c \in Cs : f[c] = W[j]}),
                                   z |-> g[W[j]], alpha |-> 50 + W[j]]],
   alpha |-> 3, cd |-> <<>>, ci |-> <<>>, diag |-> <<>>, iters |-> <<>>, hooked |-> <<>>, conditional |-> 0]
None == [c \in Cs |-> [r \in 1..Rows |-> NaN]]
S1 == Model(zv, z, None)
S2 == Model(zv2, z2, None)
(* the answer that repeats what was sent                                    *)
Echo(S) == LET m == Message(S) IN
  [level |-> "direct", ans |-> [assign |-> m.assign, parts |-> m.parts, palphas |-> m.palphas,
                                alpha |-> m.alpha, diag |-> <<>>]]
SameUpToLabels(A, B) ==
  /\ \A c, d \in Cs : (Get(A.zv, c) = Get(A.zv, d)) <=> (Get(B.zv, c) = Get(B.zv, d))
  /\ \A c \in Cs : Comember(VOf(A, c).z, VOf(B, c).z, 1..Rows)
  /\ \A c \in Cs : VOf(A, c).alpha = VOf(B, c).alpha

(* sending a model and adopting what was sent is the identity up to labels, *)
(* and adopts nothing else                                                  *)
RoundTrip == stage = 3 => ((Adopted(S1, Echo(S1), S2) = {}) <=> SameUpToLabels(S1, S2))
(* the message of T describes S iff they agree up to labels                 *)
Describes == stage = 3 =>
  ((Sent(S1, [Message(S2) EXCEPT !.dep = <<>>, !.ind = <<>>]) = {}) <=> SameUpToLabels(S1, S2))
(* the message numbers views and clusters densely and counts them           *)
Numbered == stage \in {1, 3} =>
  LET m == Message(S1) IN
  /\ AsSet(m.assign) = 0..(Len(m.parts) - 1)
  /\ \A j \in 1..Len(m.parts) :
       /\ m.counts[j] = Cardinality({i \in 1..Len(m.assign) : m.assign[i] = j - 1})
       /\ m.counts[j] = Len(m.members[j]) /\ m.slots[j] = <<m.counts[j], Len(m.pcounts[j])>>
       /\ AsSet(m.parts[j]) = 0..(Len(m.pcounts[j]) - 1)
       /\ \A k \in 1..Len(m.pcounts[j]) :
            m.pcounts[j][k] = Cardinality({r \in 1..Rows : m.parts[j][r] = k - 1})
(* two models send the same structure iff they agree up to labels and the   *)
(* order of views                                                           *)
Faithful == stage = 3 =>
  LET a == Message(S1)  b == Message(S2) IN
  (a.assign = b.assign /\ a.parts = b.parts /\ a.palphas = b.palphas) => SameUpToLabels(S1, S2)
(* the levels decode the table back to the data                             *)
Decodes == stage = 4 =>
  LET S == Model(zv, z, x)  m == Message(S) IN
  \A r \in 1..Rows : \A i \in 1..Len(ColNames) :
    LET s == m.table[r][i]  col == S.cols[i] IN
    IF s = NaN THEN col.x[r] = NaN
    ELSE IF m.kinds[i] = 1 THEN m.levels[i][s + 1] = col.x[r]
    ELSE s = col.tok[r]
=============================================================================
