----------------------------- MODULE FiniteMdpTrace -----------------------------
(* Transition tables of all small grids, and whole decision processes built from environments. *)
EXTENDS FiniteMdp, Verdict
VARIABLES l, st, bad, seen
\* next[5 n + a + 1] is the successor of cell number n under action a
RightTable(sh, next) == Len(next) = 5 * Size(sh) /\ \A n \in 0..Size(sh) - 1, a \in 0..4 : next[5 * n + a + 1] = Flat(sh, Successor(sh, Cell(sh, n), a))
ActionReward(e, a) == IF a \in {0, 2} THEN e.change ELSE 0
Judge(s, e) ==
    CASE e.k = "table" -> C("no_error", e.ok) \o When(e.ok, C("transitions", RightTable(e.shape, e.next)))
      [] e.k = "mdp" -> C("no_error", e.ok) \o When(e.ok,
            C("shape", e.shape = e.expected)
         \o C("mdp_transitions", RightTable(e.shape, e.next))
         \o C("state", e.state = Flat(e.shape, <<e.speed, e.lane, 0>>))
         \o C("terminals", Len(e.terminal) = Size(e.shape) /\ \A n \in 0..Size(e.shape) - 1 :
                 e.terminal[n + 1] = Terminal(e.shape, Cell(e.shape, n), e.grid[n + 1]))
         \o When(\E n \in 0..Size(e.shape) - 1 : e.terminal[n + 1] /\ Cell(e.shape, n)[3] # e.shape[3] - 1, C("collisions_terminal", TRUE))
         \o C("rewards", Len(e.reward) = 5 * Size(e.shape) /\ \A n \in 0..Size(e.shape) - 1, a \in 0..4 :
                 Near(e.reward[5 * n + a + 1], CellReward(e.shape, Cell(e.shape, n), e.grid[n + 1], e.cr) + ActionReward(e, a), 3))
         \o C("environment_unchanged", e.same))
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
