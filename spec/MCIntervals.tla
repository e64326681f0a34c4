------------------------------ MODULE MCIntervals ------------------------------
(* All intervals of small integers, and points in them. *)
EXTENDS Intervals
CONSTANT R
VARIABLES a, b, x, y
Some == {q \in (-R..R) \X (-R..R) : q[1] <= q[2]}
Init == a \in Some /\ b \in Some /\ x \in a[1]..a[2] /\ y \in b[1]..b[2]
Next == FALSE /\ UNCHANGED <<a, b, x, y>>
Spec == Init /\ [][Next]_<<a, b, x, y>>
In(z, q) == q[1] <= z /\ z <= q[2]
ProductSound == In(x * y, Product(a, b))
ProductTight == ~(Straddles(a) /\ Straddles(b)) => Product(a, b) = Exact(a, b)
ProductNotWild == Product(a, b)[1] >= 2 * Exact(a, b)[1] - 2 * R * R /\ Product(a, b) = Product(b, a)
ScaleExact == Scale(y, a) = Exact(a, <<y, y>>)
DiffExact == Diff(a, b) = Hull({p - q : p \in a[1]..a[2], q \in b[1]..b[2]})
NegativeExact == Negative(a) = Hull({Min(p, 0) : p \in a[1]..a[2]})
\* one step of 1/K of dx = -k x with any gain k in b, from any point of a
K == 2 * R
IntegratorSound == b[1] > 0 => LET d == Integrator(a, b) IN In(K * x - y * x, <<K * a[1] + d[1], K * a[2] + d[2]>>)
=============================================================================
