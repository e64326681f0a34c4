----------------------------- MODULE ScenesTrace -----------------------------
EXTENDS Scenes, Verdict
VARIABLES l, st, bad, seen
Vs(e) == Range(e.v)                   \* distinct: places differ
Drivers(e) == {v \in Vs(e) : v.what = "driver"}
Agents(e) == {v \in Vs(e) : v.what = "agent"}
\* highway: e.v sorted by x; the agents first
Highway(e) ==
    LET n == e.lanes  total == Len(e.v)
        gap(i) == e.v[i].x - (IF i = 1 THEN 0 ELSE e.v[i - 1].x)
        sp(i) == IF i <= e.agents THEN e.egospacing ELSE e.spacing
        lead(i) == IF i = 1 THEN 3 * Offset(e.v[1].v, n, sp(1)) ELSE 0
        ok(i) == /\ e.v[i].what = (IF i <= e.agents THEN "agent" ELSE "driver")
                 /\ e.v[i].y % 4000 = 0 /\ e.v[i].y \in 0..(4000 * (n - 1)) /\ Near(e.v[i].dx, One, 20)
        speed(i) == IF i <= e.agents THEN e.v[i].v = 25000 ELSE e.v[i].v \in 23000..25000
    IN C("population", total = e.agents + e.count)
       \o C("on_lanes", \A i \in DOMAIN e.v : ok(i)) \o C("speeds", \A i \in DOMAIN e.v : speed(i))
       \o C("spacing", \A i \in DOMAIN e.v : GapIn(gap(i) - lead(i), e.v[i].v, n, sp(i), 40 + lead(i) \div 5000 + gap(i) \div 2000))
       \o When(e.lane >= 0, C("initial_lane", \A i \in 1..e.agents : e.v[i].y = 4000 * e.lane))
       \o When(total > 12 * n, C("all_lanes", {e.v[i].y : i \in (e.agents + 1)..total} = {4000 * k : k \in 0..(n - 1)}))
\* deviations of exactly none or one standard deviation
Means(e) == CASE e.kind = "merge" -> MatchedAt(Vs(e), Merge, e.z)
              [] e.kind = "two-way" -> MatchedAt(Vs(e), TwoWay, e.z)
              [] OTHER -> LET ring == {v \in Drivers(e) : v.x < 60000} IN
                          MatchedAt(Vs(e) \ ring, Roundabout, e.z) /\ RingAt(ring, Ring, e.z)
Judge(st0, e) ==
    IF ~e.ok THEN C("no_error", FALSE)
    ELSE
    CASE e.k = "scene" ->
        C("nobody_crashed", ~e.crashed)
        \o C("controlled", e.controlled = Cardinality({i \in DOMAIN e.v : e.v[i].what = "agent"}) /\ e.first)
        \o C("allowed_speeds", \A i \in DOMAIN e.v : e.v[i].allowed \in {<< >>, IF e.kind = "roundabout" THEN <<0, 8000, 16000>> ELSE <<20000, 25000, 30000>>})
        \o C("lanes_known", e.onlanes) \o
        (CASE e.kind = "highway" -> Highway(e)
           [] e.kind = "merge" -> C("merge", Matched(Vs(e), Merge)) \o C("merging", e.merging = 30000)
                                  \o C("obstacle", Len(e.o) = 1 /\ e.o[1].what = "obstacle" /\ Near(e.o[1].x, 310000, 1) /\ Near(e.o[1].y, 8000, 1))
           [] e.kind = "two-way" -> C("two_way", Matched(Vs(e), TwoWay)) \o C("no_lane_change", e.nochange) \o C("opposite", e.opposite = 2)
           [] e.kind = "roundabout" ->
                LET ring == {v \in Drivers(e) : v.x < 60000} IN
                C("roundabout", Matched(Vs(e) \ ring, Roundabout)) \o C("ring", RingMatched(ring, Ring))
                \o C("destinations", \A v \in Drivers(e) : v.to \in Destinations) \o C("way", \A v \in Vs(e) : v.way)
                \o When(e.incoming >= 0, C("incoming", \E v \in ring : OnRing(v, Ring[1]) /\ v.to = <<"exr", "sxr", "nxr">>[e.incoming + 1]))
                \o C("agent_way", \A v \in Agents(e) : v.to \in {"nxs", ""} /\ v.allowed = <<0, 8000, 16000>>)
           [] e.kind = "parking" ->
                C("agents", Cardinality(Vs(e)) = e.agents /\ \A i \in 1..e.agents : \E v \in Agents(e) :
                    Near(v.x, 20000 * (i - 1), 1) /\ Near(v.y, 0, 1) /\ v.v = 0)
                \o C("spot", Len(e.o) = 1 /\ e.o[1].what = "landmark" /\ IsSpot(e.o[1], 10000) /\ Outwards(e.o[1]))
           [] e.kind = "summon" ->
                C("agents", \E v \in Agents(e) : Near(v.x, 26000, 1) /\ Near(v.y, 16000, 1) /\ v.v = 0)
                \o C("gate", Len(e.o) = 1 /\ e.o[1].what = "landmark" /\ SummonGoal(e.o[1]))
                \o C("busy", LET others == Vs(e) \ Agents(e) IN
                     /\ Cardinality(others) <= e.count /\ Cardinality(Agents(e)) = 1
                     /\ \A v \in others : \E i \in 0..(e.count - 1) : Parked(v, i) \/ Drives(v, i)
                     /\ \A i \in 0..(e.count - 1) : Cardinality({v \in others : Parked(v, i)}) <= 1)
                \o C("calm", \A v \in Vs(e) \ Agents(e) : \A a \in Agents(e) :
                     Mul6(v.x - a.x, v.x - a.x) + Mul6(v.y - a.y, v.y - a.y) >= 396)
           [] e.kind = "lane-keeping" -> C("lane_keeping", Len(e.v) = 1 /\ Near(e.v[1].v, 8300, 0)
                     /\ \* fifty meters along the first lane and four on its left, with its direction
                        LET dx == 880471 dy == -474100 IN Near(e.v[1].x, 50000 + Mul6(50000, dx) + Mul6(4000, dy), 3) /\ Near(e.v[1].y, 50000 + Mul6(50000, dy) - Mul6(4000, dx), 3)
                           /\ Near(e.v[1].dx, dx, 20) /\ Near(e.v[1].dy, dy, 20)))
        \o When(e.z >= 0, C((IF e.z = 0 THEN "means_" ELSE "deviated_") \o e.kind, Means(e)))
      \* one more vehicle on any road: some lane explains it.  e.at[i]: coordinate on lane i of the new vehicle, beside it, and the largest one of others
      [] e.k = "random" ->
            C("random_place", \E i \in DOMAIN e.at : LET a == e.at[i] IN
                /\ Abs(a.r) <= 2 /\ a.along /\ (e.lane < 0 \/ a.id = e.lane)
                /\ GapIn(a.s - (IF e.empty THEN 3 * Offset(e.v, a.n, e.spacing) ELSE a.max), e.v, a.n, e.spacing, 40 + Abs(a.s) \div 2000 + a.curve))
            \o C("random_speed", IF e.speed < 0 THEN e.v \in 23000..25000 ELSE e.v = e.speed)
            \o C("random_alone", e.same)
      [] e.k = "spread" -> C("deviations_" \o e.what, e.rms \in 720..1280 /\ Abs(e.mean) <= 330)
      [] e.k = "share" -> C("share_" \o e.what, Near(e.share, e.expected, e.tol))
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
