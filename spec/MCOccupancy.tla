----------------------------- MODULE MCOccupancy -----------------------------
(* Small scenes on a small asymmetric grid: cells hold exactly the vehicles whose relative position they cover. *)
EXTENDS Occupancy
Metre1 == 10000
Xs == {-7, -3, 1, 4, 11}
Ys == {-5, 0, 2, 6}
g == [size |-> << <<-5 * Metre, 10 * Metre>>, <<-4 * Metre, 4 * Metre>> >>, step |-> <<5 * Metre, 4 * Metre>>]
VARIABLES vs
V(x, y) == [f |-> [x |-> x * Metre, y |-> y * Metre, vx |-> x * Metre, vy |-> 0]]
Init == vs \in {<<V(a, 1), V(b, c), V(d, e)>> : a \in {0, 40}, b \in Xs, c \in Ys, d \in Xs, e \in Ys}
Next == UNCHANGED vs
Spec == Init /\ [][Next]_vs
Grid == {<<r, c>> : r \in 0..(Cells(g)[1] - 1), c \in 0..(Cells(g)[2] - 1)}
Inside(i) == LET x == Rel(vs, 1, i, "x")  y == Rel(vs, 1, i, "y") IN
             x >= -5 * Metre /\ x < 10 * Metre /\ y >= -4 * Metre /\ y < 4 * Metre
Good == /\ Cells(g) = <<2, 3>>
        \* every vehicle inside falls in exactly one cell, which shows it or a later one of the same cell
        /\ \A i \in DOMAIN vs : Inside(i) <=> CellOf(vs, 1, g, i) \in Grid
        /\ \A i \in DOMAIN vs : Inside(i) => Shown(vs, 1, g, CellOf(vs, 1, g, i)[1], CellOf(vs, 1, g, i)[2]) >= i
        /\ \A p \in Grid : LET k == Shown(vs, 1, g, p[1], p[2]) IN k # 0 => Inside(k) /\ CellOf(vs, 1, g, k) = p
        \* the observer is shown at the same cell wherever it is
        /\ CellOf(vs, 1, g, 1) = <<1, 1>>
=============================================================================
