------------------------------ MODULE Neighbours ------------------------------
(***************************************************************************)
(* Preceding and following entities on a lane.  A lane is described by     *)
(* f = [length, width, c] in mm, where c[i] = [s, r] are the coordinates   *)
(* of entity i on it; entity 1 is the observer.  Landmarks are no          *)
(* obstacles.  An entity is on the lane within one meter of margin and     *)
(* five meters of its ends, and ahead of the observer when beside it.      *)
(***************************************************************************)
EXTENDS Arith
OnMargin(f, i) == LET c == f.c[i] IN 2 * Abs(c.r) <= f.width + 2000 /\ -5000 <= c.s /\ c.s < f.length + 5000
Counts(kinds, f) == {i \in 2..Len(kinds) : kinds[i] # "landmark" /\ OnMargin(f, i)}
Ahead(kinds, f) == {i \in Counts(kinds, f) : f.c[i].s >= f.c[1].s}
Behind(kinds, f) == {i \in Counts(kinds, f) : f.c[i].s < f.c[1].s}
\* 0: nobody
Front(kinds, f) == LET A == Ahead(kinds, f) IN IF A = {} THEN 0 ELSE CHOOSE i \in A : \A j \in A : f.c[i].s <= f.c[j].s
Rear(kinds, f) == LET B == Behind(kinds, f) IN IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : f.c[i].s >= f.c[j].s
\* an entity exactly abreast of the observer (s equal in the plane, not only in fixed point)
Abreast(f, i) == "tie" \in DOMAIN f.c[i] /\ f.c[i].tie
\* places too close to the limits to tell, in fixed point
Doubtful(kinds, f) ==
    \E i \in 2..Len(kinds) : kinds[i] # "landmark" /\
        \/ Near(2 * Abs(f.c[i].r), f.width + 2000, 6) \/ Near(f.c[i].s, -5000, 3) \/ Near(f.c[i].s, f.length + 5000, 3)
        \/ /\ OnMargin(f, i)
           /\ \E j \in {k \in 1..Len(kinds) : k # i /\ ((k = 1 /\ ~Abreast(f, i)) \/ (kinds[k] # "landmark" /\ OnMargin(f, k)))} : Near(f.c[i].s, f.c[j].s, 3)
=============================================================================
