------------------------------- MODULE Network -------------------------------
(* Networks of composed models.  A network G is a sequence of nodes         *)
(* <<outputs, inputs>> (sequences of variables).                            *)
EXTENDS Expr

Nodes(G)   == 1..Len(G)
OutsOf(G, i) == Range(G[i][1])
InsOf(G, i)  == Range(G[i][2])
Produced(G)  == UNION {OutsOf(G, i) : i \in Nodes(G)}
Consumed(G)  == UNION {InsOf(G, i) : i \in Nodes(G)}
Producer(G, v) == CHOOSE i \in Nodes(G) : v \in OutsOf(G, i)
External(G)  == Consumed(G) \ Produced(G)

(* the graph of nodes: i reads an output of j *)
Reads(G, i, j) == InsOf(G, i) \cap OutsOf(G, j) # {}
ParentsOf(G, i) == {j \in Nodes(G) : Reads(G, i, j)}

SingleProducer(G) ==
  /\ \A i \in Nodes(G) : G[i][1] # <<>>
  /\ \A i, j \in Nodes(G) : i # j => OutsOf(G, i) \cap OutsOf(G, j) = {}
(* remove nodes without remaining parents until nothing can be removed *)
RECURSIVE Core(_, _)
Core(G, S) == LET R == {i \in S : ParentsOf(G, i) \cap S = {}} IN
              IF R = {} THEN S ELSE Core(G, S \ R)
Acyclic(G) == Core(G, Nodes(G)) = {}
Valid(G)   == SingleProducer(G) /\ Acyclic(G)

(* s is an order of evaluation *)
Ordered(G, s) == /\ Len(s) = Len(G) /\ Range(s) = Nodes(G)
                 /\ \A a, b \in 1..Len(s) : Reads(G, s[a], s[b]) => b < a

(* variables from which v is computed, directly or not *)
Inputs1(G, S) == UNION {InsOf(G, i) : i \in {j \in Nodes(G) : OutsOf(G, j) \cap S # {}}}
RECURSIVE Closure(_, _, _)
Ancestors(G, v) == Closure(G, Inputs1(G, {v}), TRUE)
Outputs1(G, S)  == UNION {OutsOf(G, i) : i \in {j \in Nodes(G) : InsOf(G, j) \cap S # {}}}
Descendants(G, v) == Closure(G, Outputs1(G, {v}), FALSE)
Closure(G, S, up) == LET N == S \cup (IF up THEN Inputs1(G, S) ELSE Outputs1(G, S)) IN
                     IF N = S THEN S ELSE Closure(G, N, up)

(* weakly connected nodes *)
RECURSIVE Reach(_, _)
Reach(G, S) == LET N == S \cup {j \in Nodes(G) : \E i \in S : Reads(G, i, j) \/ Reads(G, j, i)} IN
               IF N = S THEN S ELSE Reach(G, N)
Component(G, i) == Reach(G, {i})
SameComponent(G, i, j) == j \in Component(G, i)

(* what a query needs: the inputs of every node that is asked, given or     *)
(* itself needed; of those, the ones neither asked nor given nor external   *)
RECURSIVE Active(_, _, _)
Active(G, A, W) ==     \* W: variables wanted or given
  LET N == {i \in Nodes(G) : OutsOf(G, i) \cap W # {}} IN
  IF N = A THEN A ELSE Active(G, N, W \cup UNION {InsOf(G, i) : i \in N})
Needed(G, T, K) ==
  LET A == Active(G, {}, T \cup K) IN
  (UNION {InsOf(G, i) : i \in A}) \ (T \cup K \cup External(G))

(* Two variables are dependent when the models upstream of them (their own  *)
(* included) or the external variables these read have a member in common.  *)
Upstream(G, v) ==
  LET A == Ancestors(G, v) \cup {v} IN
  {<<"node", Producer(G, a)>> : a \in A \cap Produced(G)} \cup {<<"var", a>> : a \in A \ Produced(G)}
DependentVars(G, a, b) == a = b \/ Upstream(G, a) \cap Upstream(G, b) # {}
=============================================================================
