------------------------------ MODULE Prediction ------------------------------
(***************************************************************************)
(* Predictions.  Rollouts: every action is taken once, followed by a number *)
(* of frames, in each of which the vehicle decides on its own and moves;    *)
(* the state is saved every so many frames, counted from the beginning.     *)
(***************************************************************************)
EXTENDS Lanes
\* the operations of a rollout: "act:X", "act", "step", "save"
Frame(t, every) == <<"act", "step">> \o (IF t % every = 0 THEN <<"save">> ELSE << >>)
RECURSIVE Frames(_, _, _)
Frames(t, n, every) == IF n = 0 THEN << >> ELSE Frame(t + 1, every) \o Frames(t + 1, n - 1, every)
RECURSIVE Rollout(_, _, _, _)
Rollout(actions, t, n, every) ==
    IF actions = << >> THEN << >>
    ELSE <<"act:" \o Head(actions)>> \o Frames(t, n, every) \o Rollout(Tail(actions), t + n, n, every)
Saves(ops) == {i \in DOMAIN ops : ops[i] = "save"}
\* number of frames before operation i
Clock(ops, i) == Cardinality({k \in 1..i : ops[k] = "step"})
\* what the code shows of it (saving is silent)
Shown(ops) == SelectSeq(ops, LAMBDA o : o # "save")
=============================================================================
