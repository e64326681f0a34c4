----------------------------- MODULE MCPrediction -----------------------------
(* Rollouts: the states saved are those of the multiples of the period, and only those; and places along routes are continuous. *)
EXTENDS Prediction
VARIABLES k, n, every
Actions(m) == [i \in 1..m |-> "A"]
Init == k \in 0..3 /\ n \in 0..5 /\ every \in 1..7
Next == UNCHANGED <<k, n, every>>
Spec == Init /\ [][Next]_<<k, n, every>>
Ops == Rollout(Actions(k), 0, n, every)
Count == Cardinality(Saves(Ops)) = (k * n) \div every
Period == {Clock(Ops, i) : i \in Saves(Ops)} = {t \in 1..(k * n) : t % every = 0}
Lengths == Len(Shown(Ops)) = k + 2 * k * n
Road(x, y, dx, dy) == [type |-> "straight", x |-> x, y |-> y, dx |-> dx, dy |-> dy, length |-> 3000, width |-> 4000, forbidden |-> FALSE]
Route == <<Road(0, 0, 1000000, 0), Road(3000, 0, 0, 1000000), Road(3000, 3000, 1000000, 0)>>
Place(s) == LET q == AlongRoute(Route, s) IN Position(q.lane, q.s, 0)
Continuous == \A s \in 0..11 : LET a == Place(s * 1000)  b == Place((s + 1) * 1000) IN Abs(a[1] - b[1]) + Abs(a[2] - b[2]) \in 995..1005
=============================================================================
