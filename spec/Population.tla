------------------------------ MODULE Population ------------------------------
(***************************************************************************)
(* Traffic of an intersection.  Places in mm.                              *)
(***************************************************************************)
EXTENDS Arith
Room == 15000                        \* kept free around a new vehicle
Calm == 20000                        \* and around a new agent
\* is place q at a distance below d of p?  "touch" when 2 mm could tell
Within(p, q, d) ==
    LET dx == Abs(p[1] - q[1])  dy == Abs(p[2] - q[2]) IN
    IF dx > d + 2 \/ dy > d + 2 THEN "no"
    ELSE LET s == dx * dx + dy * dy IN
         IF s > (d + 2) * (d + 2) THEN "no" ELSE IF s < (d - 2) * (d - 2) THEN "yes" ELSE "touch"
\* may a vehicle be added at p among those at Q?
Free(p, Q, d) == LET w == {Within(p, q, d) : q \in Q} IN
    IF "yes" \in w THEN "no" ELSE IF "touch" \in w THEN "touch" ELSE "yes"
\* an entrance i: the road from node o_i to ir_i; opposite and other entrances
Straight(i) == (i + 2) % 4
\* vehicles leave the scene at twenty meters of the end of an exit road, or when they have no route
LeaveBefore == 20000
Leaves(v) == ~v.agent /\ (v.noroute \/ (v.exit /\ v.s >= v.length - LeaveBefore))
MayLeave(v) == ~v.agent /\ (v.noroute \/ (v.exit /\ v.s >= v.length - LeaveBefore - 2))
MustLeave(v) == ~v.agent /\ (v.noroute \/ (v.exit /\ v.s >= v.length - LeaveBefore + 2))
=============================================================================
