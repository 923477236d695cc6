------------------------------ MODULE MCNetwork ------------------------------
(* Theorems of Network.tla over every network of at most MaxNodes nodes on  *)
(* the variables Vars, and the machine that composes and removes nodes.     *)
EXTENDS Network
CONSTANTS Vars, MaxNodes
VARIABLES G, last
Node == {<<Sorted(o), Sorted(i)>> : o \in (SUBSET Vars) \ {{}}, i \in SUBSET Vars}
Init == G = <<>> /\ last = "none"
Compose == \E n \in Node :
  IF Valid(Append(G, n)) /\ Len(G) < MaxNodes THEN G' = Append(G, n) /\ last' = "composed"
  ELSE UNCHANGED G /\ last' = "refused"
Remove == \E i \in Nodes(G) :
  G' = [j \in 1..(Len(G) - 1) |-> IF j < i THEN G[j] ELSE G[j + 1]] /\ last' = "removed"
Next == Compose \/ Remove
Spec == Init /\ [][Next]_<<G, last>>
View == G

Stays == Valid(G)
Perms == {s \in [Nodes(G) -> Nodes(G)] : \A i, j \in Nodes(G) : i # j => s[i] # s[j]}
AsSeq2(s) == [i \in 1..Len(G) |-> s[i]]
HasOrder == \E s \in Perms : Ordered(G, AsSeq2(s))
(* a network refused for a cycle has no order of evaluation                 *)
OnlyCyclic == \A n \in Node : LET H == Append(G, n) IN
  (Len(H) <= MaxNodes /\ SingleProducer(H)) =>
     (Acyclic(H) <=> \E s \in {t \in [Nodes(H) -> Nodes(H)] : \A i, j \in Nodes(H) : i # j => t[i] # t[j]} :
                        Ordered(H, [i \in 1..Len(H) |-> s[i]]))
Dual == \A a, b \in Vars : (a \in Ancestors(G, b)) <=> (b \in Descendants(G, a))
NotOwn == \A a \in Vars : a \notin Ancestors(G, a)
DepEquiv == \A a, b \in Vars : /\ DependentVars(G, a, a)
                               /\ (DependentVars(G, a, b) <=> DependentVars(G, b, a))
DepConnected == \A a, b \in Produced(G) \cap Vars : DependentVars(G, a, b) =>
   a = b \/ SameComponent(G, Producer(G, a), Producer(G, b))
     \/ (Ancestors(G, a) \cap Ancestors(G, b) \cap External(G) # {})
(* evaluating in order with the needed variables, every active node has all *)
(* its inputs                                                               *)
NeededSuffices == \A T \in SUBSET Produced(G) : \A K \in SUBSET (Produced(G) \ T) :
  LET W == T \cup K \cup Needed(G, T, K) IN
  \A i \in Nodes(G) : OutsOf(G, i) \cap W # {} => InsOf(G, i) \subseteq W \cup External(G)
=============================================================================
