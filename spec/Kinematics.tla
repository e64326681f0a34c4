------------------------------ MODULE Kinematics ------------------------------
(***************************************************************************)
(* What a kinematics observation contains.  vs: the vehicles in the order  *)
(* of the road, each with its features f, its distance d to the observer   *)
(* and its signed distance ld along the lane of the observer (0.1 mm).     *)
(***************************************************************************)
EXTENDS Arith
Metre == 10000
Lengths == {"x", "y", "vx", "vy"}
\* vehicles that can be seen by the observer, number me
Eligible(vs, me, see_behind) ==
    {i \in DOMAIN vs : i # me /\ vs[i].d < 180 * Metre /\ (see_behind \/ vs[i].ld > -10 * Metre)}
Closer(vs, i, j) == Abs(vs[i].ld) < Abs(vs[j].ld) \/ (Abs(vs[i].ld) = Abs(vs[j].ld) /\ i < j)
RankIn(vs, S, i) == Cardinality({j \in S : Closer(vs, j, i)}) + 1
\* the n closest of them, closest first
Seen(vs, me, see_behind, n) ==
    LET S == Eligible(vs, me, see_behind)
    IN [k \in 1..Min(n, Cardinality(S)) |-> CHOOSE i \in S : RankIn(vs, S, i) = k]
\* decisions that measurement noise (2 mm) could change
Ambiguous(vs, me, see_behind) ==
    \E i \in DOMAIN vs : i # me /\
        \/ Near(vs[i].d, 180 * Metre, 20) \/ (~see_behind /\ Near(vs[i].ld, -10 * Metre, 20))
        \/ \E j \in DOMAIN vs : j # i /\ j # me /\ Near(Abs(vs[i].ld), Abs(vs[j].ld), 20)
                                /\ vs[i].d < 181 * Metre /\ vs[j].d < 181 * Metre
\* ---- one entry: value v of a feature mapped from [a, b] to [-1, 1], in 1e-6
ToUnit(v, a, b) == Scaled(2 * (v - a), b - a, 6) - 1000000
Tol(a, b) == 5000000 \div (b - a) + 5
DefaultRange(nlanes) == [x |-> <<-150 * Metre, 150 * Metre>>, y |-> <<-4 * nlanes * Metre, 4 * nlanes * Metre>>,
                         vx |-> <<-60 * Metre, 60 * Metre>>, vy |-> <<-60 * Metre, 60 * Metre>>]
\* value of feature k of vehicle i in the frame of the observer, or in the world frame
Raw(vs, me, i, k, absolute, intentions) ==
    IF k \in {"cos_d", "sin_d"} /\ ~intentions /\ i # me THEN 0
    ELSE vs[i].f[k] - (IF k \in Lengths /\ ~absolute /\ i # me THEN vs[me].f[k] ELSE 0)
\* does an observed entry (o6: in 1e-6, o4: in 1e-4) agree with value v of feature k
Agrees(o, v, k, r, normalize, clip) ==
    IF normalize /\ k \in DOMAIN r
    THEN LET u == ToUnit(v, r[k][1], r[k][2])
         IN Near(o.o6, IF clip THEN Clip(u, -1000000, 1000000) ELSE u, Tol(r[k][1], r[k][2]))
    ELSE IF k \in Lengths THEN Near(o.o4, v, 3) ELSE Near(o.o6, v, 3)
=============================================================================
