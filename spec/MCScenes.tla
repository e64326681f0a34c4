------------------------------- MODULE MCScenes -------------------------------
(* Placing vehicles one in front of the other on a highway: nobody overlaps, for all numbers of lanes and usual densities. *)
EXTENDS Scenes
VARIABLES lanes, spacing, placed      \* coordinates, the first one first
Init == lanes \in 1..8 /\ spacing \in {500, 1000, 2000} /\ placed = << >>
Ratios == {900, 1000, 1100}
Next == /\ Len(placed) < 4 /\ UNCHANGED <<lanes, spacing>>
        /\ \E v \in {23000, 25000}, u \in Ratios :
             LET o == Offset(v, lanes, spacing)
                 x0 == IF placed = << >> THEN 3 * o ELSE placed[Len(placed)]
             IN placed' = Append(placed, x0 + (o * u) \div 1000)
Spec == Init /\ [][Next]_<<lanes, spacing, placed>>
Increasing == \A i \in 1..(Len(placed) - 1) : placed[i] < placed[i + 1]
\* (eight lanes are dense enough to bring vehicles of the same lane closer than a length, at twice the usual density)
Apart == (lanes <= 6 /\ spacing >= 1000) \/ lanes <= 4 => \A i \in 1..(Len(placed) - 1) : placed[i + 1] - placed[i] > 5000
Spots == \A j, k \in 0..14 : j # k => Abs(SpotX(j) - SpotX(k)) >= 4000
=============================================================================
