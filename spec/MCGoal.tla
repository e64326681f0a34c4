-------------------------------- MODULE MCGoal --------------------------------
(* Design model: on a grid of states and goals the distance is a (weighted) distance, only the goal place and orientation are a perfect success, coming closer
   always pays, and success means being within 1.44 m along x, 4.8 m along y of the goal (scales of 100 m). *)
EXTENDS Goal
VARIABLE k
X == {-1000000, -14500, -10000, 0, 10000, 300000}
H == {<<1000000, 0>>, <<0, 1000000>>, <<-1000000, 0>>}
V == {0, 500000}
States == {<<x, y, v, 0, h[1], h[2]>> : x \in X, y \in {-48500, 0, 20000}, v \in V, h \in H}
Init == k \in States \X States
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
a == k[1]  d == k[2]
D == Distance(a, d)
Symmetric == D = Distance(d, a) /\ D >= 0
Perfect == (D = 0) <=> (a[1] = d[1] /\ a[2] = d[2] /\ a[5] = d[5] /\ a[6] = d[6])
SpeedIsFree == D = Distance([a EXCEPT ![3] = 123], d)
Closer == \A i \in {1, 2} : a[i] # d[i] => Distance([a EXCEPT ![i] = (a[i] + d[i]) \div 2], d) < D
Triangle == D <= Distance(a, <<0, 0, 0, 0, 1000000, 0>>) + Distance(<<0, 0, 0, 0, 1000000, 0>>, d) + 1
Near2 == Success(FALSE, D) => Abs(a[1] - d[1]) < 14400 /\ Abs(a[2] - d[2]) < 48000 /\ a[5] = d[5] /\ a[6] = d[6]
HitNever == ~Success(TRUE, D)
=============================================================================
