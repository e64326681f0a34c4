------------------------------ MODULE Regulation ------------------------------
(***************************************************************************)
(* Rules of priority at intersections.  A vehicle: [prio, yields (whether  *)
(* it can be told to yield), yielding, timer, target (mm/s), limit (speed  *)
(* limit of its lane), x, y, c, s, l, w, p (predicted poses)].             *)
(***************************************************************************)
EXTENDS Collision
\* ---- conflicts: predicted bodies one and a half times as long and nine tenths as wide overlap, centres within a length
Long(v, q) == [x |-> q[1], y |-> q[2], l |-> (3 * v.l) \div 2, w |-> (9 * v.w) \div 10, c |-> q[3], s |-> q[4]]
NearBy(a, b, lim) == LET dx == Abs(a[1] - b[1])  dy == Abs(a[2] - b[2]) IN
    IF dx > lim + 20 \/ dy > lim + 20 THEN "no"
    ELSE LET d == dx * dx + dy * dy IN
         IF d > (lim + 5) * (lim + 5) THEN "no" ELSE IF d < (lim - 5) * (lim - 5) THEN "yes" ELSE "touch"
MeetAt(u, v, a, b) == LET n == NearBy(a, b, u.l) IN
    IF n = "no" THEN "no"
    ELSE LET o == Overlap(Long(u, a), Long(v, b)) IN
         IF o = "no" THEN "no" ELSE IF o = "yes" /\ n = "yes" THEN "yes" ELSE "touch"
Conflict(u, v) == LET m == {MeetAt(u, v, u.p[t], v.p[t]) : t \in DOMAIN u.p} IN
    IF "yes" \in m THEN "yes" ELSE IF "touch" \in m THEN "touch" ELSE "no"
\* ---- who should yield: the lower priority, else the one behind (for whom the other is further ahead); ahead: u's distance ahead of v
Designated(pu, pv, aheadu, aheadv) ==
    IF pu > pv THEN "second" ELSE IF pu < pv THEN "first"
    ELSE IF aheadu > aheadv THEN "first" ELSE "second"
\* distance of b ahead of a, in 0.1 micrometers
Ahead(a, b) == (b.x - a.x) * a.c + (b.y - a.y) * a.s
\* the designations that rounding admits
Yielder(u, v) == LET f == Ahead(u, v) \div 1000  g == Ahead(v, u) \div 1000 IN
    IF u.prio = v.prio /\ Near(f, g, 100) THEN {"first", "second"}
    ELSE {Designated(u.prio, v.prio, f, g)}
\* ---- one enforcement: those yielding for long enough are released, then conflicts are resolved
Released(v, lasts) ==
    IF ~v.yielding THEN v
    ELSE IF v.timer >= lasts THEN [v EXCEPT !.yielding = FALSE, !.target = v.limit]
    ELSE [v EXCEPT !.timer = v.timer + 1]
Stopped(v) == [v EXCEPT !.yielding = TRUE, !.timer = 0, !.target = 0]
Outcome(v, lasts, told) == IF told /\ v.yields THEN Stopped(Released(v, lasts)) ELSE Released(v, lasts)
\* every so many frames of a simulation at this frequency
Period(frequency, regulation) == Max(1, frequency \div regulation)
=============================================================================
