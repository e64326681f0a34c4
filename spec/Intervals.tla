------------------------------- MODULE Intervals -------------------------------
(***************************************************************************)
(* Interval arithmetic and interval predictors of linear parameter-varying *)
(* systems x' = (a0 + sum of some of the deviations da) (x - center) +     *)
(* b u + d w.  An interval is <<lo, hi>>; a box of vectors also.           *)
(***************************************************************************)
EXTENDS Arith
P(x) == Max(x, 0)
N(x) == Max(-x, 0)
Hull(S) == <<SetMin(S), SetMax(S)>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN <<0, 0>> ELSE Add(Head(s), Sum(Tail(s)))
Straddles(a) == a[1] < 0 /\ a[2] > 0
\* the product: exact, unless both may have any sign
Exact(a, b) == Hull({a[i] * b[j] : i \in 1..2, j \in 1..2})
Product(a, b) == << P(a[1]) * P(b[1]) - P(a[2]) * N(b[1]) - N(a[1]) * P(b[2]) + N(a[2]) * N(b[2]),
                    P(a[2]) * P(b[2]) - P(a[1]) * N(b[2]) - N(a[2]) * P(b[1]) + N(a[1]) * N(b[1]) >>
Scale(k, b) == IF k >= 0 THEN <<k * b[1], k * b[2]>> ELSE <<k * b[2], k * b[1]>>
Dot(a, b) == Sum([i \in DOMAIN a |-> Product(a[i], b[i])])            \* of two vectors of intervals
ScaleDot(k, b) == Sum([i \in DOMAIN k |-> Scale(k[i], b[i])])         \* of a vector and a vector of intervals
Diff(a, b) == <<a[1] - b[2], a[2] - b[1]>>
Negative(a) == <<Min(a[1], 0), Min(a[2], 0)>>
\* bounds of dx = -k x, the bounds of x moving with them
Integrator(x, k) == CASE x[1] >= 0 -> <<-k[2] * x[1], -k[1] * x[2]>> [] x[2] <= 0 -> <<-k[1] * x[1], -k[2] * x[2]>> [] OTHER -> <<-k[1] * x[1], -k[1] * x[2]>>
\* ---- predictors: matrices are sequences of rows
Ups(da, i, j) == SumSeq([v \in DOMAIN da |-> P(da[v][i][j])])
Downs(da, i, j) == SumSeq([v \in DOMAIN da |-> N(da[v][i][j])])
Metzler(m) == \A i, j \in DOMAIN m : i # j => m[i][j] >= 0
\* derivative bounds of each component; box: sequence of intervals, dw: bounds of the perturbation of each component
Polytopic(a0, da, box, input, dw) == [i \in DOMAIN box |-> <<
    SumSeq([j \in DOMAIN box |-> a0[i][j] * box[j][1] - Ups(da, i, j) * N(box[j][1]) - Downs(da, i, j) * P(box[j][2])]) + input[i] + dw[i][1],
    SumSeq([j \in DOMAIN box |-> a0[i][j] * box[j][2] + Ups(da, i, j) * P(box[j][2]) + Downs(da, i, j) * N(box[j][1])]) + input[i] + dw[i][2] >>]
Naive(a0, da, box, input, dw) == [i \in DOMAIN box |->
    Add(Add(Sum([j \in DOMAIN box |-> Product(<<a0[i][j] - Downs(da, i, j), a0[i][j] + Ups(da, i, j)>>, box[j])]),
            <<input[i], input[i]>>), dw[i])]
Bounds(a0, da, box, input, dw) == IF Metzler(a0) THEN Polytopic(a0, da, box, input, dw) ELSE Naive(a0, da, box, input, dw)
\* the system itself with one vertex v (0: none) of the deviations
System(a0, da, v, x, input, w) == [i \in DOMAIN x |->
    SumSeq([j \in DOMAIN x |-> (a0[i][j] + (IF v = 0 THEN 0 ELSE da[v][i][j])) * x[j]]) + input[i] + w[i]]
=============================================================================
