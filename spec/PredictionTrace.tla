---------------------------- MODULE PredictionTrace ----------------------------
EXTENDS Prediction, Verdict
VARIABLES l, st, bad, seen
\* the coordinate reached (x.s to the millimeter)
Reached(e, x) == Near(x.s, e.s + MulDiv(e.speed, x.t, 1000), 3 + x.t \div 1000)
Along_(e, x) == LET q == AlongRoute(e.route, x.s) IN
    IF \E i \in DOMAIN e.ends : Near(x.s, e.ends[i], 4) THEN << >>      \* the headings of both lanes are right at a joint
    ELSE C("reached", Reached(e, x)) \o C("predicted_position_" \o q.lane.type, At(q.lane, q.s, 0, x.p)) \o C("predicted_heading", Along(q.lane, q.s, x.h))
         \o When(q.lane # e.route[1], C("predicted_beyond" \o (IF e.unspecified THEN "_unspecified" ELSE ""), TRUE))
Judge(st0, e) ==
    IF ~e.ok THEN C("no_error", FALSE)
    ELSE CASE e.k = "constant" ->
                C("start", Local(e.route[1], e.s, e.r, e.p0)) \o C("as_many", Len(e.x) = e.asked) \o C("unchanged", e.same)
                \o When(e.early, C("next_road_first", TRUE))
                \o All(e.x, LAMBDA x : Along_(e, x))
           [] e.k = "rollout" ->
                LET ops == Rollout(e.actions, 0, e.frames, e.every)  saves == Saves(ops) IN
                C("operations", e.ops = Shown(ops)) \o C("durations", \A i \in DOMAIN e.dts : e.dts[i] = e.dt)
                \o C("saved", Len(e.saved) = Cardinality(saves))
                \o When(Len(e.saved) = Cardinality(saves),
                        C("states", LET clock == [i \in saves |-> Clock(ops, i)]
                                        rank(i) == Cardinality({j \in saves : j <= i})
                                    IN \A i \in saves : e.saved[rank(i)] = e.alone[clock[i]]))
                \o C("own_states", e.distinct) \o C("unchanged", e.same)
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
