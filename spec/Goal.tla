--------------------------------- MODULE Goal ---------------------------------
(***************************************************************************)
(* Goal-reaching tasks.  A goal vector is (x, y, vx, vy, cos, sin), each   *)
(* divided by its scale, in 1e-6.  The distance to a goal is the weighted  *)
(* sum of the absolute differences; the reward is minus its p-th power,    *)
(* less the collision penalty of the task; success is a reward above       *)
(* -0.12, that is (p = 1/2) a distance below 0.0144 without penalty.       *)
(***************************************************************************)
EXTENDS Arith
Weights == <<100, 30, 0, 0, 2, 2>>      \* percents
RECURSIVE Sum(_, _, _)
Sum(a, d, i) == IF i = 0 THEN 0 ELSE Abs(a[i] - d[i]) * Weights[i] + Sum(a, d, i - 1)
Distance(a, d) == Sum(a, d, Len(Weights)) \div 100                    \* 1e-6
\* minus the root of a distance D is r (1e-4)
IsRoot(r, D) == r <= 0 /\ Near(r * r, 100 * D, Abs(r) + 500)
IsLinear(r, D) == Near(r, -(D \div 100), 2)
IsReward(half, r, D) == IF half THEN IsRoot(r, D) ELSE IsLinear(r, D)
Penalty(hit) == IF hit THEN -50000 ELSE 0
Success(hit, D) == ~hit /\ D < 14400
Unsure(D) == D \in 14390..14410
Scaled6(x, s) == x \div s               \* x / s, x in 1e-6
\* state and goal vectors are the scaled features
Shows(o, f, scales) == Len(o) = Len(f) /\ \A i \in DOMAIN f : Near(o[i] * scales[i], f[i], scales[i] + 1)
=============================================================================
