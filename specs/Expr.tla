------------------------------- MODULE Expr -------------------------------
(* Expression trees: how this specification states real-valued quantities. *)
(* TLC builds the tree; lib/expr.py computes its value; for rational       *)
(* instances Rat evaluates it inside TLC, so that the design theorems in   *)
(* MCMixture.tla are about the very expressions the code is compared with. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Q(n, d)   == <<"q", n, d>>
I(n)      == <<"q", n, 1>>
Zero      == I(0)
One       == I(1)
Plus(a,b) == <<"+", a, b>>
Minus(a,b)== <<"-", a, b>>
Times(a,b)== <<"*", a, b>>
Div(a,b)  == <<"/", a, b>>
Pow(a,b)  == <<"^", a, b>>
Gam(a)    == <<"G", a>>
Bet(a,b)  == <<"B", a, b>>
Sum(s)    == <<"+">> \o s
Prod(s)   == <<"*">> \o s
Half(a)   == Times(Q(1,2), a)
Pi        == <<"pi">>
Exp(a)    == <<"exp", a>>

(* any enumeration of a finite set *)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE y \in S : TRUE
                  IN <<x>> \o SetSeq(S \ {x})
(* increasing enumeration of a finite set of integers *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z
                  IN <<x>> \o Sorted(S \ {x})
Range(s)   == {s[i] : i \in 1..Len(s)}
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE Head(s) + ISum(Tail(s))
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Exact rational value <<n, d>> of a tree built from q + - * / ^ G B. *)
RECURSIVE Gcd(_,_)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Norm(r) == LET g == Gcd(Abs(r[1]), Abs(r[2]))
               s == IF r[2] < 0 THEN -1 ELSE 1
           IN IF r[1] = 0 THEN <<0, 1>> ELSE <<s * (r[1] \div g), s * (r[2] \div g)>>
RAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN Norm(<<a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g)>>)
RMul(a, b) == LET g == Gcd(Abs(a[1]), b[2])  h == Gcd(Abs(b[1]), a[2])
                  g1 == IF g = 0 THEN 1 ELSE g  h1 == IF h = 0 THEN 1 ELSE h
              IN Norm(<<(a[1] \div g1) * (b[1] \div h1), (a[2] \div h1) * (b[2] \div g1)>>)
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RECURSIVE RPow(_,_)
RPow(a, n) == IF n = 0 THEN <<1,1>> ELSE IF n < 0 THEN RInv(RPow(a, -n))
              ELSE RMul(a, RPow(a, n-1))
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n-1)
RECURSIVE Rat(_)
RECURSIVE RatSum(_,_)
RECURSIVE RatProd(_,_)
RatSum(e, i)  == IF i > Len(e) THEN <<0,1>> ELSE RAdd(Rat(e[i]), RatSum(e, i+1))
RatProd(e, i) == IF i > Len(e) THEN <<1,1>> ELSE RMul(Rat(e[i]), RatProd(e, i+1))
(* Beta(a, b) for one integer argument n: (n-1)! / (m (m+1) .. (m+n-1)) *)
RECURSIVE Rising(_,_)
Rising(m, n) == IF n = 0 THEN <<1,1>>
                ELSE RMul(Rising(m, n-1), RAdd(m, <<n-1, 1>>))
Rat(e) == CASE e[1] = "q" -> Norm(<<e[2], e[3]>>)
            [] e[1] = "+" -> RatSum(e, 2)
            [] e[1] = "*" -> RatProd(e, 2)
            [] e[1] = "-" -> LET b == Rat(e[3]) IN RAdd(Rat(e[2]), <<-b[1], b[2]>>)
            [] e[1] = "/" -> RMul(Rat(e[2]), RInv(Rat(e[3])))
            [] e[1] = "^" -> LET p == Rat(e[3]) IN RPow(Rat(e[2]), p[1])
            [] e[1] = "G" -> <<Fact(Rat(e[2])[1] - 1), 1>>
            [] e[1] = "B" -> LET a == Rat(e[2])  b == Rat(e[3]) IN
                 IF b[2] = 1 THEN RMul(<<Fact(b[1]-1), 1>>, RInv(Rising(a, b[1])))
                 ELSE RMul(<<Fact(a[1]-1), 1>>, RInv(Rising(b, a[1])))
=============================================================================
