-------------------------------- MODULE Fix --------------------------------
(* Fixed-point arithmetic shared by every module of the specification.      *)
(*                                                                          *)
(* A real quantity x is represented by the integer round(x * S).  TLC has   *)
(* 32-bit integers, so every product clamps its operands first: energies to *)
(* +-LIM, factors (prices, efficiencies, emission factors) to +-FLIM.  The  *)
(* clamps are outside everything the drivers generate; they only keep TLC   *)
(* total when the implementation under test returns garbage.                *)
(* No higher-order operators here and in the other modules: TLC does not    *)
(* cache the values of their arguments.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

S    == 1000
LIM  == 200000
FLIM == 10000
INF  == 1000000      \* "unlimited" capacity of the balancing module

Abs(x)        == IF x < 0 THEN -x ELSE x
Min2(a, b)    == IF a <= b THEN a ELSE b
Max2(a, b)    == IF a >= b THEN a ELSE b
Clamp(x,l,h)  == IF x < l THEN l ELSE IF x > h THEN h ELSE x
Near(a, b, t) == Abs(a - b) <= t
Sign(x)       == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
B2I(b)        == IF b THEN 1 ELSE 0

\* x / y rounded to the nearest integer (y > 0)
RDiv(x, y) == IF x >= 0 THEN (x + (y \div 2)) \div y
                        ELSE -(((-x) + (y \div 2)) \div y)

Mul(e, f) == RDiv(Clamp(e, -LIM, LIM) * Clamp(f, -FLIM, FLIM), S)
Div(e, f) == RDiv(Clamp(e, -LIM, LIM) * S, Max2(f, 1))

RECURSIVE SumTo(_, _)
SumTo(q, k) == IF k = 0 THEN 0 ELSE SumTo(q, k - 1) + q[k]
SumSeq(q)   == LET v == TLCEval(q) IN SumTo(v, Len(v))

MinOver(A) == CHOOSE x \in A : \A y \in A : x <= y
MaxOver(A) == CHOOSE x \in A : \A y \in A : x >= y

\* the elements of a set of integers, in increasing order
RECURSIVE SortSet(_)
SortSet(A) == IF A = {} THEN <<>> ELSE LET x == MinOver(A) IN <<x>> \o SortSet(A \ {x})

\* the elements of q that are in A, in the order of q
RECURSIVE SelectSeq2(_, _)
SelectSeq2(q, A) == IF q = <<>> THEN <<>>
                    ELSE (IF Head(q) \in A THEN <<Head(q)>> ELSE <<>>) \o SelectSeq2(Tail(q), A)

SeqNear(a, b, t) == /\ Len(a) = Len(b)
                    /\ \A i \in 1..Len(a) : Near(a[i], b[i], t)
=============================================================================
