------------------------------- MODULE RoadNet -------------------------------
(***************************************************************************)
(* Road networks, seen as graphs: net is a function from nodes to          *)
(* functions from nodes to numbers of lanes.  A lane index is              *)
(* <<from, to, id>>, id = -1 when left unspecified.                        *)
(***************************************************************************)
EXTENDS Arith
Succ(net, a) == IF a \in DOMAIN net THEN DOMAIN net[a] ELSE {}
Lanes(net, l) == net[l[1]][l[2]]
Road(l) == <<l[1], l[2]>>
IsPath(net, p) == \A i \in 1..(Len(p) - 1) : p[i + 1] \in Succ(net, p[i])
Simple(p) == Cardinality(Range(p)) = Len(p)
\* nodes at distance at most n of a
RECURSIVE Within(_, _, _)
Within(net, a, n) == IF n = 0 THEN {a}
                     ELSE LET W == Within(net, a, n - 1) IN W \cup UNION {Succ(net, x) : x \in W}
Nodes(net) == DOMAIN net \cup UNION {DOMAIN net[a] : a \in DOMAIN net}
Reachable(net, a, b) == b \in Within(net, a, Cardinality(Nodes(net)))
Distance(net, a, b) == SetMin({n \in 0..Cardinality(Nodes(net)) : b \in Within(net, a, n)})
\* p is what a search for a shortest path from a to b may return; nothing leads from a node to itself
IsShortest(net, a, b, p) ==
    IF a = b \/ ~Reachable(net, a, b) THEN p = << >>
    ELSE /\ Len(p) = Distance(net, a, b) + 1 /\ p[1] = a /\ p[Len(p)] = b /\ IsPath(net, p)
\* the route planned by a vehicle on lane l towards b
IsRoute(net, l, b, r) ==
    LET a == l[2]  nodes == [i \in 1..Len(r) |-> r[i][2]] IN
    /\ Len(r) >= 1 /\ r[1] = l
    /\ IF a = b \/ ~Reachable(net, a, b) THEN Len(r) = 1
       ELSE /\ IsShortest(net, a, b, nodes)
            /\ \A i \in 2..Len(r) : r[i] = <<r[i - 1][2], r[i][2], -1>>
\* ---- neighbouring lanes
AllSide(net, l) == [i \in 1..Lanes(net, l) |-> <<l[1], l[2], i - 1>>]
Side(net, l) == {k \in Range(AllSide(net, l)) : Abs(k[3] - l[3]) = 1}
\* ---- the lane to follow after lane l, dist: lateral preference of every lane <<road, id>> (smaller is closer)
RouteHere(l, r) == IF r # << >> /\ Road(r[1]) = Road(l) THEN Tail(r) ELSE r
NextRoads(net, l, r) ==
    LET h == RouteHere(l, r) IN
    IF h # << >> /\ h[1][1] = l[2] THEN {<<l[2], h[1][2]>>} ELSE {<<l[2], b>> : b \in Succ(net, l[2])}
IsNext(net, l, r, dist(_, _), n) ==
    LET R == NextRoads(net, l, r) IN
    IF R = {} THEN n = l
    ELSE /\ Road(n) \in R
         /\ IF Lanes(net, n) = Lanes(net, l) THEN n[3] = l[3]
            ELSE n[3] \in 0..(Lanes(net, n) - 1)
                 /\ \A i \in 0..(Lanes(net, n) - 1) : dist(n, n[3]) <= dist(n, i)
\* ---- connection of lane l1 to lane l2: the same road, or l2 leads to l1, or so along the way of l1
Touches(l1, l2, same) ==
    /\ Road(l1) = Road(l2) \/ l2[2] = l1[1]
    /\ same => l1[3] = l2[3]
RECURSIVE Connected(_, _, _, _, _, _)
Connected(net, l1, l2, r, same, depth) ==
    \/ Touches(l1, l2, same)
    \/ /\ depth > 0
       /\ LET h == RouteHere(l1, r) IN
          IF h # r THEN Connected(net, l1, l2, h, same, depth)
          ELSE IF r # << >> /\ r[1][1] = l1[2] THEN Connected(net, r[1], l2, Tail(r), same, depth - 1)
          ELSE \E b \in Succ(net, l1[2]) : Connected(net, <<l1[2], b, l1[3]>>, l2, r, same, depth - 1)
\* ---- routes available at the next intersection of a route: the first of its three first roads ending with a choice
Choice(net, r) == {i \in 1..Min(Len(r), 3) : Cardinality(Succ(net, r[i][2])) >= 2}
RoutesAt(net, r) ==
    IF r = << >> THEN {}
    ELSE IF Choice(net, r) = {} THEN {r}
    ELSE LET i == SetMin(Choice(net, r))
         IN {SubSeq(r, 1, i) \o << <<r[i][2], b, IF r[i][3] = -1 THEN -1 ELSE Min(r[i][3], net[r[i][2]][b] - 1)>> >> : b \in Succ(net, r[i][2])}
=============================================================================
