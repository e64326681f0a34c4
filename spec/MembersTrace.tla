----------------------------- MODULE MembersTrace -----------------------------
(* Recorded bounds of uncertain drivers, with drivers that they should hold; the state is the driver followed through a prediction. *)
EXTENDS Members, Verdict
VARIABLES l, st, bad, seen
Bodies == INSTANCE Collision
TolX == 6
TolV == 6
Judge(s, e) ==
    IF ~e.ok THEN C("no_error", FALSE) ELSE
    CASE e.k = "observe" ->
            LET q == Box1(e.d, e.lane, e.box, e.n) IN
            All(e.m, LAMBDA m : LET z == Next1(e.d, e.lane, [ahead |-> e.box.ahead] @@ m, e.n) IN
                C("holds_place", In(z.x, e.after.x, TolX) /\ In(z.y, e.after.y, TolX)) \o C("holds_speed", In(z.v, e.after.v, TolV))
                \o C("holds_heading", In(z.h, e.after.h, e.tol)))
            \o C("place_bounds", Same(q.x, e.after.x, TolX) /\ Same(q.y, e.after.y, TolX)) \o C("speed_bounds", Same(q.v, e.after.v, TolV))
            \o C("heading_bounds", Same(q.h, e.after.h, e.tol))
            \o C("others_kept", e.same)
      \* from the lower and upper ends of the box, separately
      [] e.k = "partial" -> C("ends_of_bounds", e.got = e.want) \o C("others_kept", e.same)
      [] e.k = "start" -> C("starts_certain", e.lo = e.state /\ e.hi = e.state /\ e.later = e.state) \o C("same_driver", e.driver = e.source)
      [] e.k = "frame" ->
            C("drives_on", e.model = e.twin)
            \o C("recorded", e.records = e.past + 1 /\ e.last = e.before /\ e.first = e.start)
            \o When(e.crashed, C("certain_after_crash", e.lo = e.before.state /\ e.hi = e.before.state))
            \o When(e.inside, C("holds_model", \A i \in DOMAIN e.model : i = 4 \/ (e.lo[i] <= e.model[i] /\ e.model[i] <= e.hi[i])))
      [] e.k = "lanes" -> C("followed_lanes", e.got = Followed(e.mode, e.squeeze, e.id, e.count, e.right))
      [] e.k = "from" -> << >>
      [] e.k = "ahead" ->
            LET m == Predicted(e.d, e.m, [s EXCEPT !.z = s.z - e.shift], e.w, e.n)
                x == Mul6(m.x, e.lane.c) - Mul6(m.z, e.lane.s) + 10 * e.lane.x  y == Mul6(m.x, e.lane.s) + Mul6(m.z, e.lane.c) + 10 * e.lane.y IN
            C("predicted_speed", In(m.v, e.v, e.tol)) \o C("predicted_heading", In(m.p, e.p, e.tol))
            \o C("predicted_place", In(x, e.x, e.tol) /\ In(y, e.y, e.tol))
      [] e.k = "crash" ->
            LET centre == IF e.worst THEN [x |-> Nearest(e.other.x, e.x), y |-> Nearest(e.other.y, e.y)] ELSE [x |-> e.self.x, y |-> e.self.y]
                whole == [e.self EXCEPT !.x = centre.x, !.y = centre.y]
                \* extreme corners beyond five metres are not looked at
                edge == LET q == Max(Abs(centre.x - e.other.x), Abs(centre.y - e.other.y)) IN (q > 4800 /\ q < 5200) \/ (~e.worst /\ q > 3000)
                o == IF edge THEN "touch" ELSE Bodies!Overlap(IF e.worst THEN whole ELSE Bodies!Body(whole), Bodies!Body(e.other))
                a == e.after  b == e.before
            IN When(e.alone, C("stays_as_is", a = b))
               \o When(~e.alone /\ o = "yes", C("worst_case_yes", a[1].crashed /\ a[2].crashed) \o C("slowest", a[1].v = Min(b[1].v, b[2].v) /\ a[2].v = a[1].v))
               \o When(~e.alone /\ o = "no", C("worst_case_no", a = b))
Follow(s, e) == IF ~e.ok THEN s ELSE CASE e.k = "from" -> e.s [] e.k = "ahead" -> Predicted(e.d, e.m, [s EXCEPT !.z = s.z - e.shift], e.w, e.n) [] OTHER -> s
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
=============================================================================
