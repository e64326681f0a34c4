------------------------------- MODULE Episode -------------------------------
(***************************************************************************)
(* The decision loop of an environment: decision steps made of simulation  *)
(* frames, the forwarding of the agent's action, and the end of episodes.  *)
(*                                                                         *)
(* Frame granularity is that of the implementation: within a step, frames  *)
(* are run one by one; a frame forwards the action of the step if it is    *)
(* the first one, lets every vehicle decide, then advances the world by    *)
(* 1/sf seconds.  A step ends after N = sf \div pf frames, or as soon as   *)
(* the state is terminal or the environment has been closed.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

FramesPerStep(sf, pf) == sf \div pf

\* ---- when is a state terminal?  kind: the task, f: the facts of the state, c: the task's configuration
\* Intersection: the exit roads il<k> -> o<k> start 11 m from the centre, along these axes.  An agent has arrived
\* when it is 25 m along one of them.
Axis(n) == CASE n = "il0" -> <<0, 1>> [] n = "il1" -> <<-1, 0>> [] n = "il2" -> <<0, -1>> [] n = "il3" -> <<1, 0>>
IsExit(a) == <<a.from, a.to>> \in {<<"il0", "o0">>, <<"il1", "o1">>, <<"il2", "o2">>, <<"il3", "o3">>}
Along(a) == a.p[1] * Axis(a.from)[1] + a.p[2] * Axis(a.from)[2] - 11000
Arrived(a) == IsExit(a) /\ Along(a) >= 25000
\* Highway: parallel lanes 4 m wide, centred on y = 0, 4, ..., from x = -5 to x = 10005 (margins included).
OnHighway(f, c) == f.y >= -2000 /\ f.y <= 4000 * (c.lanes - 1) + 2000 /\ f.x >= -5000 /\ f.x < 10005000
HighwayEdge(f, c) == \/ f.y \in -2002..-1998 \/ f.y - 4000 * (c.lanes - 1) \in 1998..2002
GoalCost(g) ==  \* weighted distance to the goal, 1e-6 units: 1, .3, 0, 0, .02, .02 on (x/100, y/100, ., ., cos, sin)
    g[1] * 10 + g[2] * 3 + (g[3] * 2) \div 100 + (g[4] * 2) \div 100
SuccessThreshold == 14400                       \* 0.12^2
Terminal(kind, f, c, steps) ==
    CASE kind = "highway" ->
            \/ f.crashed[1]
            \/ steps >= c.duration
            \/ c.offroad_terminal /\ ~OnHighway(f, c)
      [] kind = "merge" -> f.crashed[1] \/ f.x > 370000
      [] kind = "roundabout" -> f.crashed[1] \/ steps >= c.duration
      [] kind = "two-way" -> f.crashed[1]
      [] kind = "intersection" ->
            \/ \E i \in DOMAIN f.crashed : f.crashed[i]
            \/ \A i \in DOMAIN f.agents : Arrived(f.agents[i])
            \/ steps >= c.duration * c.pf
      [] kind \in {"parking", "summon"} ->
            \/ steps >= c.duration
            \/ \E i \in DOMAIN f.crashed : f.crashed[i]
            \/ \A i \in DOMAIN f.goal : GoalCost(f.goal[i]) < SuccessThreshold
      [] kind = "lane-keeping" -> FALSE

\* facts lying on a threshold, where rounding to the trace's units could decide: not judged
OnEdge(kind, f, c) ==
    CASE kind = "merge" -> f.x \in 369999..370001
      [] kind = "highway" -> c.offroad_terminal /\ HighwayEdge(f, c)
      [] kind = "intersection" -> \E i \in DOMAIN f.agents : IsExit(f.agents[i]) /\ Along(f.agents[i]) \in 24998..25002
      [] kind \in {"parking", "summon"} ->
            \E i \in DOMAIN f.goal : GoalCost(f.goal[i]) \in (SuccessThreshold - 60)..(SuccessThreshold + 60)
      [] OTHER -> FALSE
=============================================================================
