------------------------------- MODULE GoalTrace -------------------------------
(* Observations, rewards and successes of goal-reaching tasks, for the goals of the episodes and for any others.  The specification state is the goal of the
   episode. *)
EXTENDS Goal, Verdict
VARIABLES l, st, bad, seen
Judge(s, e) ==
    CASE e.k = "obs" ->
            C("observation_scaled", Shows(e.obs, e.f, e.scales)) \o C("achieved_is_observation", e.achieved = e.obs)
            \o C("desired_is_goal", Shows(e.desired, e.goal, e.scales))
            \o When(e.later, C("goal_stays", e.desired = s))
      [] e.k = "reward" ->
            LET D == Distance(e.a, e.d) IN
            C("no_error", e.ok) \o When(e.ok, C("relabelled_reward" \o (IF e.half THEN "" ELSE "_linear") \o (IF e.hit THEN "_hit" ELSE ""),
                                                IsReward(e.half, e.r - Penalty(e.hit), D))
            \o C("arguments_unchanged", e.same))
      [] e.k = "batch" ->
            C("no_error", e.ok) \o When(e.ok, C("one_reward_per_row", Len(e.rs) = Len(e.rows))
            \o When(Len(e.rs) = Len(e.rows), C("batch_rewards", \A i \in DOMAIN e.rows :
                    IsReward(TRUE, e.rs[i] - Penalty(e.hit), Distance(e.rows[i][1], e.rows[i][2])))))
      [] e.k = "step" ->
            C("step_reward_of_observation" \o (IF e.hit THEN "_hit" ELSE ""),
              Near(e.r, SumSeq(e.each), 2 * Len(e.each)))
            \o C("one_success_each", Len(e.success) = Len(e.pairs))
            \o When(Len(e.success) = Len(e.pairs), All([i \in DOMAIN e.pairs |-> i], LAMBDA i :
                 LET D == Distance(e.pairs[i][1], e.pairs[i][2]) IN
                 C("each_reward", IsReward(TRUE, e.each[i] - Penalty(e.hit), D))
                 \o When(~Unsure(D), C(IF Success(e.hit, D) THEN "success" ELSE IF e.hit /\ D < 14400 THEN "no_success_when_hit" ELSE "no_success",
                                       e.success[i] = Success(e.hit, D)))))
Follow(s, e) == IF e.k = "obs" THEN e.desired ELSE s
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
=============================================================================
