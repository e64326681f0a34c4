------------------------- MODULE TimeToCollisionTrace -------------------------
(* Recorded time-to-collision grids and observations, in halves. *)
EXTENDS TimeToCollision, Verdict
VARIABLES l, st, bad, seen
Met(e) == [n \in DOMAIN e.os |-> [d |-> e.os[n].d, margin |-> e.os[n].margin, v |-> e.os[n].v, alike |-> e.os[n].alike,
                                  met |-> LanesMet(e.net, e.me, e.route, e.os[n].lane)]]
Judge(s, e) ==
    LET n == Lanes(e.net, e.me)  V == Len(e.speeds)  os == Met(e)
        must == [i \in 1..V |-> Marks(os, i, e.speeds[i], e.pf, e.H, TRUE)]
        may  == [i \in 1..V |-> Marks(os, i, e.speeds[i], e.pf, e.H, FALSE)]
        \* lower and higher value of cell <<speed, lane, column>>
        lo(i, k, c) == Top(must[i], k, c)
        hi(i, k, c) == Top(may[i], k, c)
        shaped == IF e.k = "grid" THEN Len(e.g) = V /\ \A i \in DOMAIN e.g : Len(e.g[i]) = n /\
                                            \A k \in DOMAIN e.g[i] : Len(e.g[i][k]) = e.H
                  ELSE Len(e.g) = 3 /\ \A i \in 1..3 : Len(e.g[i]) = 3 /\ \A k \in 1..3 : Len(e.g[i][k]) = e.H
    IN C(e.k \o "_shape", shaped)
       \o When(shaped /\ e.k = "grid",
            C("no_missed_collision", \A i \in 1..V, k \in 0..(n - 1), c \in 0..(e.H - 1) : e.g[i][k + 1][c + 1] >= lo(i, k, c))
            \o C("no_false_collision", \A i \in 1..V, k \in 0..(n - 1), c \in 0..(e.H - 1) : e.g[i][k + 1][c + 1] <= hi(i, k, c))
            \o C("levels", \A i \in 1..V, k \in 1..n, c \in 1..e.H : e.g[i][k][c] \in 0..2)
            \o When(\E i \in 1..V : must[i] # {}, C("some_collision", TRUE)))
       \o When(shaped /\ e.k = "view",
            C("outside_road", \A i \in 1..3, k \in 1..3 : OffRoad(n, e.me[3], k) => \A c \in 1..e.H : e.g[i][k][c] = 2)
            \o C("view", \A i \in 1..3, k \in 1..3 : ~OffRoad(n, e.me[3], k) => \A c \in 0..(e.H - 1) :
                   LET v == Layer(V, e.sidx + 1, i)  r == e.me[3] + k - 2
                   IN e.g[i][k][c + 1] >= lo(v, r, c) /\ e.g[i][k][c + 1] <= hi(v, r, c)))
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
