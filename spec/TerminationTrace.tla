-------------------------- MODULE TerminationTrace --------------------------
(***************************************************************************)
(* The end of episodes and the information returned with every step.       *)
(*   step events: as recorded by the decision loop;                         *)
(*   length events: how many decision steps an undisturbed, lone agent can *)
(*   take in each registered task before its episode is over.              *)
(***************************************************************************)
EXTENDS Episode, Verdict
VARIABLES l, st, bad, seen
Start == [k |-> 0]
Tol == 50
B(x) == IF x THEN 1 ELSE 0
HasCost(kind) == kind \in {"highway", "intersection", "two-way"}
Cost(e) == 1000000 * B(e.f.crashed[1]) + (IF e.kind = "two-way" THEN B(e.r.lane = 0) * 66667 ELSE 0)
Successful(e, i) == GoalCost(e.f.goal[i]) < SuccessThreshold /\ (e.kind = "summon" => ~e.f.crashed[1])
AgentOver(e, i) == \/ e.f.crashed[i] \/ e.steps >= e.c.duration * e.c.pf \/ Arrived(e.f.agents[i])
\* length of an episode in which nothing happens (agent alone on the road, idle or braking)
EpisodeLength(id) ==
    CASE id = "highway-v0" -> 40 [] id = "roundabout-v0" -> 11 [] id = "two-way-v0" -> 15
      [] id \in {"intersection-v0", "intersection-multi-agent-v0"} -> 13
      [] id = "parking-v0" -> 100 [] id = "parking-ActionRepeat-v0" -> 20
      [] id = "summon-v0" -> 100 [] id = "summon-ActionRepeat-v0" -> 20
      [] id = "lane-keeping-v0" -> 200 [] id = "merge-v0" -> 12
JudgeStep(e) ==
    LET sure == ~OnEdge(e.kind, e.f, e.c)  T == Terminal(e.kind, e.f, e.c, e.steps) IN
    When(sure, C("done_iff_terminal", e.done = T)
               \o When(T, C("terminal_" \o e.kind, e.done))
               \o When(T /\ ~e.f.crashed[1] /\ (\E i \in DOMAIN e.f.crashed : e.f.crashed[i]), C("any_agent_ends_" \o e.kind, e.done))
               \o When(~T /\ e.kind = "parking" /\ (\E i \in DOMAIN e.f.goal : Successful(e, i)), C("all_goals_needed", ~e.done))
               \o When(T /\ e.f.crashed[1] /\ e.kind /= "lane-keeping", C("crash_ends_" \o e.kind, e.done)))
    \o When(e.kind /= "lane-keeping",
        C("info_keys", {"speed", "crashed", "action"} \subseteq Range(e.info.has))
        \o C("info_speed", Near(e.info.speed, e.r.speed, 1))
        \o C("info_crashed", e.info.crashed = e.f.crashed[1])
        \o When(~e.none, C("info_action", e.info.sameaction))
        \o C("info_cost_presence", ("cost" \in Range(e.info.has)) = HasCost(e.kind))
        \o When(HasCost(e.kind), C("cost_" \o e.kind, Near(e.info.cost, Cost(e), Tol))))
    \o When(e.kind \in {"parking", "summon"} /\ sure,
        C("is_success", "is_success" \in Range(e.info.has)
            /\ Len(e.info.success) = Len(e.f.goal) /\ \A i \in DOMAIN e.f.goal : e.info.success[i] = Successful(e, i))
        \o When(\E i \in DOMAIN e.f.goal : Successful(e, i), C("succeeds", \E i \in DOMAIN e.info.success : e.info.success[i])))
    \o When(e.kind = "intersection" /\ sure,
        C("agents_dones", Len(e.info.agents_dones) = Len(e.f.agents)
            /\ \A i \in DOMAIN e.f.agents : e.info.agents_dones[i] = AgentOver(e, i))
        \o When(e.each # << >>, C("each_agent", e.each[1].same /\ e.each[1].dones = e.info.agents_dones))
        \o When(\E i \in DOMAIN e.f.agents : Arrived(e.f.agents[i]), C("agent_arrives", \E i \in DOMAIN e.info.agents_dones : e.info.agents_dones[i])))
Judge(s, e) ==
    CASE e.k = "step" -> When(e.ok, JudgeStep(e))
      [] e.k = "length" -> C("length_" \o e.id, e.n = EpisodeLength(e.id))
      [] OTHER -> << >>
Follow(s, e) == s
L == INSTANCE TraceLoop WITH StartState <- Start, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
=============================================================================
