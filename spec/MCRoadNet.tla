------------------------------ MODULE MCRoadNet ------------------------------
(***************************************************************************)
(* Every directed graph on N nodes.  A breadth-first search, written as    *)
(* transitions that grow one path at a time in first-in first-out order,   *)
(* always ends with what IsShortest allows (so the search order does not   *)
(* matter to the specification).  The module also writes the graphs used   *)
(* to drive the real code (GEN = "yes").                                   *)
(***************************************************************************)
EXTENDS RoadNet, TLC, Json, IOUtils
CONSTANT N
Names == <<"a", "b", "c", "d">>
V == {Names[i] : i \in 1..N}
E == {<<x, y>> \in V \X V : x # y}
Net(g) == [x \in {e[1] : e \in g} |-> [y \in {e[2] : e \in {f \in g : f[1] = x}} |-> 1]]
VARIABLES net, start, goal, queue, found, over
vars == <<net, start, goal, queue, found, over>>
Init == \E g \in SUBSET E, a \in V, b \in V :
          /\ net = Net(g) /\ start = a /\ goal = b /\ queue = << <<a>> >> /\ found = << >> /\ over = FALSE
Last(p) == p[Len(p)]
Orders(X) == {f \in [1..Cardinality(X) -> X] : Range(f) = X}
Step == /\ ~over
        /\ IF queue = << >> THEN over' = TRUE /\ UNCHANGED <<queue, found>>
           ELSE LET p == Head(queue)
                    X == {x \in Succ(net, Last(p)) : x \notin Range(p)}
                IN IF goal \in X
                   THEN found' = Append(p, goal) /\ over' = TRUE /\ UNCHANGED queue
                   ELSE /\ \E o \in Orders(X) :
                             queue' = Tail(queue) \o [i \in 1..Cardinality(X) |-> Append(p, o[i])]
                        /\ UNCHANGED <<found, over>>
        /\ UNCHANGED <<net, start, goal>>
Stop == over /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Stop]_vars
z == <<"z", start, 0>>
Right == over =>
           /\ IsShortest(net, start, goal, found) /\ Simple(found)
           /\ IsRoute(net, z, goal, << z >> \o [i \in 1..(Len(found) - 1) |-> <<found[i], found[i + 1], -1>>])
Leads == (over /\ found # << >>) =>
           /\ Connected(net, z, <<found[Len(found) - 1], goal, 0>>, << >>, FALSE, N + 1)
           /\ ~Connected(net, z, <<goal, "y", 0>>, << >>, FALSE, 0)
InOrder == \A i \in 1..(Len(queue) - 1) : Len(queue[i]) <= Len(queue[i + 1]) /\ Len(queue[i + 1]) <= Len(queue[i]) + 1
=============================================================================
