----------------------------- MODULE MCRegulation -----------------------------
(***************************************************************************)
(* Three vehicles with arbitrary priorities; conflicts come and go, places *)
(* along the road decide among equals.                                     *)
(***************************************************************************)
EXTENDS Regulation
CONSTANT Lasts
VARIABLES prio, v, quiet, conflicts, told
N == 1..3
Pairs == {<<i, j>> \in N \X N : i < j}
\* the vehicle ahead has the larger rank
Yields(i, j) == IF Designated(prio[i], prio[j], j - i, i - j) = "first" THEN i ELSE j
Told(C) == {Yields(p[1], p[2]) : p \in C}
Fresh == [yields |-> TRUE, yielding |-> FALSE, timer |-> 0, target |-> 9, limit |-> 10]
Init == /\ prio \in [N -> 0..2] /\ v = [i \in N |-> Fresh] /\ quiet = [i \in N |-> 0] /\ conflicts = {} /\ told = {}
Next == /\ UNCHANGED prio /\ conflicts' \in SUBSET Pairs
        /\ told' = Told(conflicts')
        /\ v' = [i \in N |-> Outcome(v[i], Lasts, i \in told')]
        /\ quiet' = [i \in N |-> IF i \in told' THEN 0 ELSE Min(quiet[i] + 1, Lasts + 2)]
Spec == Init /\ [][Next]_<<prio, v, quiet, conflicts, told>> /\ WF_<<prio, v, quiet, conflicts, told>>(Next)
Justified == \A i \in told : \E j \in N : ({<<i, j>>, <<j, i>>} \cap conflicts # {}) /\ prio[j] >= prio[i]
OnePerConflict == \A p \in conflicts : ~(prio[p[1]] = prio[p[2]] /\ p[1] \notin told /\ p[2] \notin told)
Stops == \A i \in told : v[i].yielding /\ v[i].target = 0
\* whoever has the highest priority, and is ahead among equals, never yields
First(i) == \A j \in N \ {i} : prio[i] > prio[j] \/ (prio[i] = prio[j] /\ i > j)
SomeoneGoes == \E i \in N : First(i) /\ ~v[i].yielding
\* nobody waits longer than required once its conflicts are over
FreeAgain == \A i \in N : quiet[i] > Lasts => ~v[i].yielding
Resumes == \A i \in N : ~v[i].yielding => v[i].target # 0
Bounded == \A i \in N : v[i].timer <= Lasts
=============================================================================
