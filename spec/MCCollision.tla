----------------------------- MODULE MCCollision -----------------------------
(* Three bodies and every overlap relation among them: checks done in any order establish what Collision promises. *)
EXTENDS Collision
VARIABLES start, b, pairs, over
vars == <<start, b, pairs, over>>
Body1(k, c, v, e) == [kind |-> k, crashed |-> c, speed |-> v, enabled |-> e]
Car == {Body1("vehicle", c, v, e) : c \in BOOLEAN, v \in {-3, 2, 5}, e \in BOOLEAN}
Thing == {Body1(k, FALSE, 0, TRUE) : k \in {"obstacle", "landmark"}}
Ordered == {p \in (1..3) \X (1..3) : p[1] # p[2]}
ov(i, j) == IF {i, j} \in over THEN "yes" ELSE "no"
Init == /\ \E x \in Car, y \in Car, z \in Car \cup Thing : start = <<x, y, z>>
        /\ b = start /\ over \in SUBSET {{1, 2}, {1, 3}, {2, 3}}
        /\ pairs = {p \in Ordered : start[p[1]].kind = "vehicle"}
Check == \E p \in pairs :
    /\ pairs' = pairs \ {p} /\ UNCHANGED <<start, over>>
    /\ IF ov(p[1], p[2]) = "yes"
       THEN LET r == Checked(b[p[1]], b[p[2]]) IN b' = [b EXCEPT ![p[1]] = r[1], ![p[2]] = r[2]]
       ELSE UNCHANGED b
Done == pairs = {} /\ UNCHANGED vars
Spec == Init /\ [][Check \/ Done]_vars
Promises == pairs = {} =>
    /\ AllCrash(start, b, ov) /\ NoneElse(start, b, ov) /\ NeverUndone(start, b) /\ ObjectsHit(start, b, ov)
    /\ SpeedsKept(start, b, ov) /\ Slower(start, b) /\ Shared(start, b, ov)
=============================================================================
