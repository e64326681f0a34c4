------------------------------ MODULE MCEpisode ------------------------------
(***************************************************************************)
(* Design model of the decision loop, at the grain of the implementation:  *)
(* one action per frame.  The action is forwarded when the frame counter   *)
(* is a multiple of the frames per step -- an implementation choice -- and *)
(* the properties say that this is once per step, at its first frame.      *)
(***************************************************************************)
EXTENDS Episode, TLC
CONSTANTS SF, PF, Duration, MaxFrames
N == FramesPerStep(SF, PF)
VARIABLES time, steps, i, phase, crashed, closed, manual, fwd, ends
\* i: frames run in the current step; fwd: frames of the current step that forwarded the action; ends: steps completed
vars == <<time, steps, i, phase, crashed, closed, manual, fwd, ends>>
F == [crashed |-> <<crashed>>]
Over == closed \/ Terminal("roundabout", F, [duration |-> Duration], steps)
Init == /\ time = 0 /\ steps = 0 /\ i = 0 /\ phase = "idle" /\ crashed = FALSE /\ closed = FALSE
        /\ manual \in BOOLEAN /\ fwd = {} /\ ends = 0
BeginStep == /\ phase = "idle"
             /\ steps' = steps + 1 /\ phase' = "frames" /\ i' = 0 /\ fwd' = {}
             /\ UNCHANGED <<time, crashed, closed, manual, ends>>
Frame == /\ phase = "frames" /\ i < N
         /\ fwd' = IF ~manual /\ time % N = 0 THEN fwd \cup {i} ELSE fwd
         /\ time' = time + 1 /\ i' = i + 1
         /\ crashed' \in {crashed, TRUE}
         /\ phase' = IF closed \/ Terminal("roundabout", [crashed |-> <<crashed'>>], [duration |-> Duration], steps)
                        \/ i + 1 = N THEN "idle" ELSE "frames"
         /\ ends' = IF phase' = "idle" THEN ends + 1 ELSE ends
         /\ UNCHANGED <<steps, closed, manual>>
Close == phase = "idle" /\ ~closed /\ closed' = TRUE /\ UNCHANGED <<time, steps, i, phase, crashed, manual, fwd, ends>>
Reset == /\ phase = "idle" /\ time' = 0 /\ steps' = 0 /\ i' = 0 /\ crashed' = FALSE /\ closed' = FALSE
         /\ fwd' = {} /\ ends' = 0 /\ UNCHANGED <<phase, manual>>
Next == BeginStep \/ Frame \/ Close \/ Reset
Spec == Init /\ [][Next]_vars /\ WF_vars(Frame)
Bound == time <= MaxFrames /\ steps <= MaxFrames

\* A step begun while the episode was not over forwards the action exactly once, at its first frame.
Live(s) == ~closed /\ ~crashed
ForwardOnce == (phase = "idle" /\ i > 0 /\ ~Over) => fwd = (IF manual THEN {} ELSE {0})
FirstFrame == (phase = "frames" /\ i > 0 /\ ~Over) => fwd = (IF manual THEN {} ELSE {0})
\* Full steps run exactly N frames; shorter ones only at the end of the episode.
FullSteps == (phase = "idle" /\ steps > 0 /\ i > 0 /\ i < N) => Over
Aligned == (~Over /\ phase = "idle") => time = N * steps
Counting == phase = "idle" => ends = steps
\* Steps always finish (checked on the finite instance where at most Duration + 1 steps are begun).
LiveNext == (BeginStep /\ steps <= Duration) \/ Frame \/ Close
LiveSpec == Init /\ [][LiveNext]_vars /\ WF_vars(Frame)
StepsEnd == (phase = "frames") ~> (phase = "idle")
=============================================================================
