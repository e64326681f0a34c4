------------------------------ MODULE MCNetworks ------------------------------
(* Design model: a journey over the documented networks.  Wherever one drives, lanes follow each other without gap, names are unique, exits are reachable from
   every entrance, and the junctions look the same from all sides. *)
EXTENDS Networks
VARIABLES kind, at
Kinds == {"highway", "merge", "two-way", "parking", "summon", "lane-keeping", "intersection", "roundabout"}
Net == Network(kind, 3)
Init == kind \in Kinds /\ at \in {1}
\* from a lane to one that starts at its end node, or the next of the network
After(k) == {j \in DOMAIN Net : Net[j].f = Net[k].t}
Next == UNCHANGED kind /\ at' \in After(at) \cup {j \in DOMAIN Net : j = at + 1}
Spec == Init /\ [][Next]_<<kind, at>>
L == Net[at]
UniqueNames == \A j \in DOMAIN Net : j # at => Index(Net[j]) # Index(L)
\* some lane of the next road goes on (but at the end of the ramp, where an obstacle stands; opposite directions of the two-way road and rows of spots do
\* not join; branches join the ring at an angle; the road of lane keeping is joined in its middle)
RampEnd == kind = "merge" /\ Index(L) = <<"b", "c", 2>>
\* an exit of the intersection and the entrance of the same arm are the two sides of one road
ArmEnd == kind = "intersection" /\ L.t \in {"o0", "o1", "o2", "o3"}
Joined == kind \notin {"two-way", "parking", "summon", "lane-keeping"} /\ ~RampEnd /\ ~ArmEnd =>
    \A t \in {Net[j].t : j \in After(at)} : \E j \in After(at) : Net[j].t = t /\ SamePlace(Net[j].p[1], L.p[5], IF kind = "roundabout" THEN 12000 ELSE 5)
\* neighbouring places are not further apart than the length tells (half a metre for the sines)
LengthFits == \A k \in 1..4 : LET dx == (L.p[k + 1][1] - L.p[k][1]) \div 100  dy == (L.p[k + 1][2] - L.p[k][2]) \div 100  q == L.len \div 400
                              IN dx < 20000 => dx * dx + dy * dy <= (q + 5) * (q + 5)
Symmetric == kind \in {"intersection", "roundabout"} => \E j \in DOMAIN Net : SameLane([L EXCEPT !.pr = 0], [Rotated(Net[j], 1) EXCEPT !.pr = 0])
=============================================================================
