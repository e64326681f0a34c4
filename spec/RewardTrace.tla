----------------------------- MODULE RewardTrace -----------------------------
(* Rewards of recorded decision steps, judged against their documented composition. *)
EXTENDS Reward, Verdict
VARIABLES l, st, bad, seen
Start == [lane |-> "straight", sure |-> TRUE]
Tol == 150
Judge(s, e) ==
    IF e.k /= "step" THEN << >> ELSE IF ~e.ok THEN C("rewarded", FALSE)
    ELSE LET R == e.reward  sure == ~OnEdge(e.kind, e.f, e.c)  hit == B(e.f.crashed[1]) IN
    CASE e.kind = "highway" ->
            When(~HighwayEdge(e.f, e.c),
                 C("highway", Near(R, Highway(e.c, e.r, e.f), Tol))
                 \o When(hit = 1, C("highway_crash", Near(R, Highway(e.c, e.r, e.f), Tol)))
                 \o When(~OnHighway(e.f, e.c), C("highway_offroad", R = 0)))
            \o C("highway_range", R >= -Tol /\ R <= One + Tol)
      [] e.kind = "merge" ->
            C("merge", Near(R, Merge(e.r, e.f, e.action), Tol))
            \o When(e.r.ramp /= << >>, C("merge_ramp", Near(R, Merge(e.r, e.f, e.action), Tol)))
            \o When(hit = 1, C("merge_crash", Near(R, Merge(e.r, e.f, e.action), Tol)))
      [] e.kind = "roundabout" ->
            C("roundabout", Near(R, Roundabout(e.r, e.f, e.action), Tol))
            \o C("roundabout_range", R >= -Tol /\ R <= One + Tol)
      [] e.kind = "two-way" ->
            C("two_way", Near(R, TwoWay(e.r), Tol)) \o When(e.r.tlane < e.r.nlanes, C("two_way_range", R >= -Tol /\ R <= One + Tol))
      [] e.kind = "intersection" ->
            When(sure, C("intersection", Near(R, Intersection(e.c, e.r, e.f), Tol))
                       \o C("agents_rewards", Len(e.info.agents_rewards) = Len(e.f.agents)
                            /\ \A i \in DOMAIN e.f.agents : Near(e.info.agents_rewards[i], Agent(e.c, e.r, e.f, i), Tol))
                       \o When(e.each # << >>, C("each_agent", e.each[1].same /\ e.each[1].rewards = e.info.agents_rewards))
                       \o When(\E i \in DOMAIN e.f.agents : Arrived(e.f.agents[i]),
                               C("arrived", Near(R, Intersection(e.c, e.r, e.f), Tol))))
            \o When(e.c.norm, C("normalised_range", R >= -Tol /\ R <= One + Tol))
      [] e.kind = "parking" ->
            C("parking", R >= 100 * GoalLow(e.f, 0) /\ R <= 100 * GoalHigh(e.f, 0)) \o C("goal_range", R <= Tol)
            \o When(Len(e.f.goal) > 1, C("parking_multi", R >= 100 * GoalLow(e.f, 0) /\ R <= 100 * GoalHigh(e.f, 0)))
      [] e.kind = "summon" ->
            C("summon", R >= 100 * GoalLow(e.f, hit) /\ R <= 100 * GoalHigh(e.f, hit)) \o C("goal_range", R <= Tol)
            \o When(hit = 1, C("summon_crash", R <= -5 * One + Tol))
      [] e.kind = "lane-keeping" ->
            LET lane == IF s.lane = "straight" /\ s.sure THEN "straight" ELSE s.lane
                lat == IF lane = "straight" THEN e.r.lat_straight ELSE e.r.lat_sine
            IN When(s.sure /\ Abs(lat) < 40000,
                    C(IF lane = "straight" THEN "lane_keeping_straight" ELSE "lane_keeping_sine",
                      Near(R, LaneKeeping(lat), 300 + Abs(lat) \div 20)))
               \o C("lane_keeping_range", R <= One + Tol)
\* lane keeping: the followed lane changes when a decision step begins outside of the straight one
Follow(s, e) ==
    IF e.k = "reset" THEN Start
    ELSE IF e.k = "step" /\ e.kind = "lane-keeping" /\ s.lane = "straight"
         THEN [lane |-> IF OnStraight(e.r) THEN "straight" ELSE "sine", sure |-> ~StraightEdge(e.r)]
         ELSE s
L == INSTANCE TraceLoop WITH StartState <- Start, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
=============================================================================
