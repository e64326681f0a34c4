----------------------------- MODULE RoadNetTrace -----------------------------
(* Searches, routes, next lanes, side lanes and connections returned by the real road network. *)
EXTENDS RoadNet, Verdict
VARIABLES l, st, bad, seen
At(d, n, i) == d[n[1] \o ">" \o n[2]][i + 1]
Judge(s, e) ==
    CASE e.k = "paths" ->
            All(e.p, LAMBDA x : C("shortest_path", IsShortest(e.net, x.a, x.b, x.path)))
      [] e.k = "plan" -> C("planned_route", e.ok /\ IsRoute(e.net, e.l, e.b, e.route))
      [] e.k = "next" ->
            C("next_lane", e.ok /\ IsNext(e.net, e.l, e.route, LAMBDA n, i : At(e.dist, n, i), e.n))
            \o C("route_consumed", e.ok => e.after = RouteHere(e.l, e.route))
            \o C("valid_lane", e.ok => e.n[3] \in 0..(Lanes(e.net, e.n) - 1))
      [] e.k = "side" -> C("side_lanes", Range(e.side) = Side(e.net, e.l) /\ Len(e.side) = Cardinality(Range(e.side)))
                         \o C("all_side_lanes", e.all = AllSide(e.net, e.l))
      [] e.k = "conn" -> C("connected", e.ok /\ e.res = Connected(e.net, e.l1, e.l2, e.route, e.same, e.depth))
                         \o C("route_untouched", e.after = e.route)
      [] e.k = "inter" -> C("routes_at_intersection", e.ok /\ Range(e.routes) = RoutesAt(e.net, e.route)
                              /\ Len(e.routes) = Cardinality(RoutesAt(e.net, e.route)))
                         \o When(e.routes # << >>, C("route_chosen", e.ok2 /\ IF e.to = "random" THEN e.chosen \in Range(e.routes)
                                 ELSE e.chosen = e.routes[(e.n % Len(e.routes)) + 1]))
      [] e.k = "follow" -> C("follow_road", IF e.ended THEN IsNext(e.net, e.l, e.route, LAMBDA n, i : At(e.dist, n, i), e.n)
                                            ELSE e.n = e.l /\ e.after = e.route)
      [] e.k = "get" -> C("get_lane", e.same)
Follow(s, e) == s
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
=============================================================================
