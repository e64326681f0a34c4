------------------------------ MODULE TraceLoop ------------------------------
(***************************************************************************)
(* The behaviour shared by all trace specifications, instantiated with     *)
(* their Start, Judge and Follow (see Verdict).  One state per event; the  *)
(* last action writes the verdict.                                         *)
(***************************************************************************)
EXTENDS Verdict
CONSTANTS StartState, Judgement(_, _), FollowState(_, _)
VARIABLES l, st, bad, seen
Init == l = 1 /\ st = StartState /\ bad = << >> /\ seen = NoTally
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l]  j == Judgement(st, e)
              IN /\ bad' = Cap(bad \o Failed(j, l)) /\ seen' = Tally(seen, j)
                 /\ st' = FollowState(st, e) /\ l' = l + 1
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad, seen |-> seen])
          /\ l' = l + 1 /\ UNCHANGED <<st, bad, seen>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_<<l, st, bad, seen>>
=============================================================================
