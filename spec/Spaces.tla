-------------------------------- MODULE Spaces --------------------------------
(***************************************************************************)
(* Declared action and observation spaces, and membership.                 *)
(* A space or a value is flattened to its leaves:                          *)
(*   space leaf  [path, shape, bounded, lo, hi]                            *)
(*   value leaf  [path, shape, finite, lo, hi]   (lo, hi: least and        *)
(*                                               greatest entries, 1e-6)   *)
(* Bounds of spaces are in 1e-6 as well, except for pixels (units of 1).   *)
(***************************************************************************)
EXTENDS Arith, TLC
One == 1000000
Leaf(p, sh, lo, hi) == [path |-> p, shape |-> sh, bounded |-> TRUE, lo |-> lo, hi |-> hi]
Free(p, sh) == [path |-> p, shape |-> sh, bounded |-> FALSE, lo |-> 0, hi |-> 0]
\* cells of size step that fit in an extent, both in mm
Cells(ext, step) == (ext[2] - ext[1]) \div step
Prefixed(i, s) == [k \in DOMAIN s |-> [s[k] EXCEPT !.path = ToString(i) \o "/" \o s[k].path]]
RECURSIVE Concat(_, _, _)
Concat(F(_), i, n) == IF i > n THEN << >> ELSE Prefixed(i - 1, F(i)) \o Concat(F, i + 1, n)

\* the observation space of observation type o in configuration c
ObsSpace1(o) ==
    CASE o.type = "Kinematics" -> << Leaf("", <<o.count, Len(o.features)>>, -One, One) >>
      [] o.type = "TimeToCollision" -> << Leaf("", <<3, 3, o.horizon * o.pf>>, 0, One) >>
      [] o.type = "OccupancyGrid" ->
            << Leaf("", <<Len(o.features), Cells(o.size[2], o.step[2]), Cells(o.size[1], o.step[1])>>, -One, One) >>
      [] o.type = "GrayscaleObservation" -> << Leaf("", <<o.w, o.h, o.stack>>, 0, 255 * One) >>
      [] o.type = "KinematicsGoal" ->
            << Free("achieved_goal", <<Len(o.features)>>), Free("desired_goal", <<Len(o.features)>>),
               Free("observation", <<Len(o.features)>>) >>
      [] o.type = "AttributesObservation" ->
            << Free("derivative", <<4, 1>>), Free("reference_state", <<4, 1>>), Free("state", <<4, 1>>) >>
ObsSpace(o) == IF o.agents = 0 THEN ObsSpace1(o) ELSE Concat(LAMBDA i : ObsSpace1(o), 1, o.agents)

ActSpace1(a) ==
    IF a.type = "ContinuousAction"
    THEN << [Leaf("", <<IF a.lon /\ a.lat THEN 2 ELSE 1>>, -One, One) EXCEPT !.path = ""] >>
    ELSE << [path |-> "", shape |-> << >>, bounded |-> TRUE, lo |-> 0, hi |-> IF a.lon /\ a.lat THEN 5 ELSE 3] >>
ActSpace(a) == IF a.agents = 0 THEN ActSpace1(a) ELSE Concat(LAMBDA i : ActSpace1(a), 1, a.agents)

Member(v, S) ==
    /\ Len(v) = Len(S)
    /\ \A i \in DOMAIN S :
         /\ v[i].path = S[i].path /\ v[i].shape = S[i].shape /\ v[i].finite
         /\ S[i].bounded => v[i].lo >= S[i].lo /\ v[i].hi <= S[i].hi
=============================================================================
