------------------------------- MODULE Occupancy -------------------------------
(***************************************************************************)
(* Occupancy grids around the observer: layers by feature, rows by y,      *)
(* columns by x.  Vehicles are relative to the observer in position and    *)
(* velocity; where several share a cell the last one of the road shows.    *)
(***************************************************************************)
EXTENDS Kinematics
Rel(vs, me, i, k) == vs[i].f[k] - (IF k \in Lengths THEN vs[me].f[k] ELSE 0)
Cell(v, lo, step) == (v - lo) \div step
NearEdge(v, lo, step) == LET r == (v - lo) % step IN r < 20 \/ r > step - 20
Cells(g) == <<(g.size[2][2] - g.size[2][1]) \div g.step[2], (g.size[1][2] - g.size[1][1]) \div g.step[1]>>  \* rows, columns
CellOf(vs, me, g, i) == <<Cell(Rel(vs, me, i, "y"), g.size[2][1], g.step[2]), Cell(Rel(vs, me, i, "x"), g.size[1][1], g.step[1])>>
\* vehicles close enough to the grid for their cell to depend on measurement noise
Doubtful(vs, me, g, i) ==
    LET c == CellOf(vs, me, g, i)  n == Cells(g) IN
    /\ c[1] >= -1 /\ c[1] <= n[1] /\ c[2] >= -1 /\ c[2] <= n[2]
    /\ NearEdge(Rel(vs, me, i, "x"), g.size[1][1], g.step[1]) \/ NearEdge(Rel(vs, me, i, "y"), g.size[2][1], g.step[2])
\* the vehicle shown in cell <<r, c>>, 0 if none
Shown(vs, me, g, r, c) ==
    LET S == {i \in DOMAIN vs : CellOf(vs, me, g, i) = <<r, c>>} IN IF S = {} THEN 0 ELSE SetMax(S)
Value(vs, me, i, k, range) ==
    LET v == Rel(vs, me, i, k)
        u == IF k \in DOMAIN range THEN ToUnit(v, range[k][1], range[k][2]) ELSE IF k \in Lengths THEN Clip(v, -10000, 10000) * 100 ELSE v
    IN Clip(u, -1000000, 1000000)
ValueTol(k, range) == IF k \in DOMAIN range THEN Tol(range[k][1], range[k][2]) ELSE 200
=============================================================================
