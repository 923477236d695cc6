--------------------------- MODULE MCComponents ---------------------------
(* Design theorems about Components, over all histories of observations    *)
(* and removals up to a bound, evaluated exactly in rational arithmetic.   *)
EXTENDS Components
CONSTANTS Type, K, Codes, MaxN
VARIABLES xs, ys      \* two orders of observing the same multiset

HH == [alpha |-> Q(1,1), beta |-> Q(2,1), a |-> Q(2,1), b |-> Q(1,1)]
col == [id |-> 0, type |-> Type, k |-> K, den |-> 1, lo |-> 0, hi |-> 1, h |-> HH, x |-> <<>>]

Init == xs = <<>> /\ ys = <<>>
Observe(x)  == Len(xs) < MaxN /\ xs' = Append(xs, x) /\ ys' = <<x>> \o ys
Forget(i)   == /\ i \in 1..Len(xs)
               /\ xs' = SubSeq(xs, 1, i-1) \o SubSeq(xs, i+1, Len(xs))
               /\ LET j == CHOOSE k \in 1..Len(ys) : ys[k] = xs[i]
                  IN ys' = SubSeq(ys, 1, j-1) \o SubSeq(ys, j+1, Len(ys))
Swap(i)     == /\ i \in 1..(Len(ys)-1)
               /\ ys' = [ys EXCEPT ![i] = ys[i+1], ![i+1] = ys[i]]
               /\ UNCHANGED xs
Next == \/ \E x \in Codes : Observe(x)
        \/ \E i \in 1..MaxN : Forget(i)
        \/ \E i \in 1..MaxN : Swap(i)
Spec == Init /\ [][Next]_<<xs, ys>>

Chain(s) == Prod([i \in 1..Len(s) |-> Pred(col, 0, SubSeq(s, 1, i-1), s[i])])
(* score = product of one-step predictives, in either order *)
ChainRule    == Rat(Score(col, 0, xs)) = Rat(Chain(xs)) /\ Rat(Chain(xs)) = Rat(Chain(ys))
Exchangeable == Rat(Score(col, 0, xs)) = Rat(Score(col, 0, ys)) /\ Stats(col, xs) = Stats(col, ys)
(* the predictive is a distribution (finite supports) *)
Outcomes == IF Type = "bernoulli" THEN {0, 1} ELSE IF Type = "categorical" THEN 0..(K-1)
            ELSE IF Type = "crp" THEN Range(xs) \cup {100} ELSE {}
Proper == Outcomes # {} =>
   Rat(Sum([i \in 1..Cardinality(Outcomes) |-> Pred(col, 0, xs, Sorted(Outcomes)[i])])) = <<1, 1>>
=============================================================================
