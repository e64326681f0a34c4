------------------------------ MODULE LanesTrace ------------------------------
(* Recorded geometry of real lanes and networks. *)
EXTENDS Lanes, Verdict
VARIABLES l, st, bad, seen
Kind(e) == "_" \o e.lane.type
\* a witness of the local coordinates of p on a lane
Witness(lane, w, p) == Local(lane, w.s, w.r, p)
Judge(st0, e) ==
    IF ~e.ok THEN C("no_error", FALSE) ELSE
    CASE e.k = "pos" -> C("position" \o Kind(e), At(e.lane, e.s, e.r, e.p)) \o C("heading" \o Kind(e), Along(e.lane, e.s, e.h))
                        \o C("width", e.width = e.lane.width)
      [] e.k = "local" -> C("local" \o Kind(e), Local(e.lane, e.s, e.r, e.p))
      [] e.k = "tests" ->
            C("witness", Witness(e.lane, e.w, e.p))
            \o When(~Edge(e.lane, e.w.s, e.w.r, e.margin),
                 C("on_lane_" \o ToString(e.on), e.on = OnLane(e.lane, e.w.s, e.w.r, e.margin) /\ e.on2 = e.on)
                 \o C("reachable_" \o ToString(e.reach), e.reach = Reachable(e.lane, e.w.s, e.w.r))
                 \o C("after_end_" \o ToString(e.after), e.after = AfterEnd(e.lane, e.w.s) /\ e.after2 = e.after))
            \o C("distance", e.dist2 = e.dist /\ Near(e.dist, Distance(e.lane, e.w.s, e.w.r), 2 * Tol(e.lane, e.w.s)))
            \o C("witness", Between(e.lane, e.w.s, e.w.n, e.h, e.w.ang))
            \o C("distance_with_heading", Near(e.dwh, Distance(e.lane, e.w.s, e.w.r) + Mul6(e.w.ang, e.weight), 2 * Tol(e.lane, e.w.s) + 5))
      [] e.k = "closest" ->
            C("witness", \A i \in DOMAIN e.lanes : Witness(e.lanes[i].lane, e.lanes[i].w, e.p)
                /\ (e.heading => Between(e.lanes[i].lane, e.lanes[i].w.s, e.lanes[i].w.n, e.h, e.lanes[i].w.ang)))
            \o C(IF e.heading THEN "closest_with_heading" ELSE "closest", e.got \in DOMAIN e.lanes /\
                 LET d(i) == Distance(e.lanes[i].lane, e.lanes[i].w.s, e.lanes[i].w.r) + (IF e.heading THEN e.lanes[i].w.ang \div 1000 ELSE 0)
                 IN \A i \in DOMAIN e.lanes : d(e.got) <= d(i) + 10)
      [] e.k = "route" -> LET x == AlongRoute(e.lanes, e.s) IN
            C("along_route", At(x.lane, x.s, e.r, e.p) /\ Along(x.lane, x.s, e.h))
      [] e.k = "join" -> C("continuous", LET p == Position(e.a, e.a.length, 0)  q == Position(e.b, 0, 0) IN
            Near(p[1], q[1], 20) /\ Near(p[2], q[2], 20)
            /\ Near(Cross(Tangent(e.a, e.a.length), Tangent(e.b, 0)), 0, 5000) /\ Dot(Tangent(e.a, e.a.length), Tangent(e.b, 0)) > 0)
      [] e.k = "made" -> C("made_on_lane", At(e.lane, e.s, 0, e.p) /\ Along(e.lane, e.s, e.h) /\ e.speed = e.expected)
      [] e.k = "lanedist" -> C("witness", Witness(e.lane, e.w, e.p) /\ Witness(e.lane, e.w2, e.p2))
            \o C("lane_distance", Near(e.d, e.w2.s - e.w.s, 2 * Tol(e.lane, Max(Abs(e.w.s), Abs(e.w2.s)))))
      [] e.k = "network" -> C("straight_network",
            /\ Len(e.lanes) = e.n
            /\ \A i \in DOMAIN e.lanes : LET x == e.lanes[i] IN
                 /\ x.type = "straight" /\ x.length = e.length /\ x.width = 4000
                 /\ Near(x.dx, Cos(e.angle), 8) /\ Near(x.dy, -Sin(e.angle), 8)
                 /\ Near(x.x, Mul6(4000 * (i - 1), Sin(e.angle)), 3) /\ Near(x.y, Mul6(4000 * (i - 1), Cos(e.angle)), 3))
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
