----------------------------- MODULE RenderingTrace -----------------------------
(* Recorded images with what the environment is like; the state is the camera and what should be drawn (Rendering), the last grey images, the pedals. *)
EXTENDS Rendering, Verdict
VARIABLES l, st, bad, seen
Begin == [cam |-> Camera([w |-> 1, h |-> 1, scale |-> 1, cx |-> 0, cy |-> 0]), stack |-> << >>, last |-> << >>]
\* lines of a sample: kind, s, distance, length of the lane, deviation of its polyline
Sees(cam, ln) == Pixels(cam, ln.d) <= 350 + Pixels(cam, ln.bend)
OnMark(cam, ln) == Pixels(cam, ln.d) <= 60 /\ Pixels(cam, ln.bend) <= 120 /\ Marked(ln.kind, ln.s, ln.length)
Sample(cam, e, x) ==
    LET covering == {i \in DOMAIN e.things : Maybe(cam, e.focus, e.things[i], x.p)}
        ghosts == {i \in DOMAIN e.ghosts : Maybe(cam, e.focus, e.ghosts[i], x.p)}
        top == SetMax(covering)
        lines == {i \in DOMAIN x.lines : Sees(cam, x.lines[i])}
    IN IF covering # {}
       THEN When(Surely(cam, e.focus, e.things[top], x.p), C("colour_" \o e.things[top].what, x.rgb = Colour(e.things[top])))
       ELSE IF ghosts # {}
       THEN LET g == SetMax(ghosts) IN When(Cardinality(ghosts) = 1 /\ lines = {} /\ Surely(cam, e.focus, e.ghosts[g], x.p),
                  C("trail", \A i \in 1..3 : Near(x.rgb[i], (30 * Colour(e.ghosts[g])[i] + 225 * Ground[i]) \div 255, 4)))
       ELSE C("road_or_ground", x.rgb = Ground \/ x.rgb = White)
            \o When(\A i \in lines : ~MarkPossible(x.lines[i].kind, x.lines[i].s, x.lines[i].length), C("no_mark", x.rgb = Ground))
            \o When(\E i \in lines : OnMark(cam, x.lines[i]), C("mark", x.white))
RECURSIVE Orders(_)
Orders(keys) == IF keys = << >> THEN << >> ELSE LET o == Order(Head(keys), TRUE, TRUE, TRUE) IN (IF o = "none" THEN << >> ELSE <<o>>) \o Orders(Tail(keys))
Judge(s, e) ==
    IF ~e.ok THEN C("no_error", FALSE) ELSE
    CASE e.k = "open" -> << >>
      [] e.k = "press" -> C("unchanged", e.before = e.after)
      [] e.k = "image" -> C("shape", e.shape = <<s.cam.h, s.cam.w, 3>>) \o C("unchanged", e.before = e.after)
                          \o Cat([i \in DOMAIN e.samples |-> Sample(s.cam, e, e.samples[i])])
      [] e.k = "quiet" -> C("unchanged", e.before = e.after) \o C("nothing_returned", e.returned = "None")
      [] e.k = "windows" -> C("windows_apart", e.together = e.alone)
      \* an agent draws next to the road, below or beside it, and on the road
      [] e.k = "agent" -> C("agent_draws", e.calls # << >> /\ \A i \in DOMAIN e.calls : e.calls[i] = <<e.w, e.h, e.w, e.h>>)
                          \o C("agent_panel", e.shape = Panels(e.w, e.h, e.shown /\ ~e.offscreen))
                          \o When(e.shown /\ ~e.offscreen, C("agent_beside", \A i \in DOMAIN e.second : e.second[i] = e.colour))
                          \o When(e.spot # << >>, C("agent_on_road", e.spot[1] = e.spotted))
      \* keys reach the agent in their order; closing the window closes the environment, and asking for an image still gives one
      [] e.k = "posted" -> C("keys_drive", e.took = Orders(e.keys)) \o When(e.quit, C("window_closed", e.ended /\ ~e.open))
                           \o When(~e.quit, C("window_open", ~e.ended /\ e.open)) \o When(e.shape # << >>, C("shape", e.shape = <<150, 300, 3>>))
      [] e.k = "twin" -> C("same_without_rendering", e.rendered = e.alone)
      [] e.k = "saved" -> C("saved_images", e.files = e.want /\ e.same)
      \* layers of the observation at pixels <<column, row>>, and the image that is rendered now (weights 1e-4)
      [] e.k = "grey" -> C("grey_shape", e.shape = e.want)
                         \o C("grey_last", \A i \in DOMAIN e.now : Near(e.layers[i][Len(e.layers[i])] * 100, Grey(e.weights, e.now[i]), 120))
                         \o When(s.stack # << >> /\ ~e.fresh, C("grey_stack", \A i \in DOMAIN e.now : SubSeq(e.layers[i], 1, Len(e.layers[i]) - 1) = Tail(s.stack[i])))
                         \o When(e.fresh, C("grey_fresh", \A i \in DOMAIN e.now : \A j \in 1..(Len(e.layers[i]) - 1) : e.layers[i][j] = 0))
                         \o C("grey_kept", e.kept)
      [] e.k = "pedal" -> C("pedal", e.got = Pedal(s.last, e.key, e.down, e.lateral, e.longitudinal))
      [] e.k = "order" -> C("order", e.got = Order(e.key, e.down, e.lateral, e.longitudinal))
      \* units of the surface (dyadic scalings: exact): pixels in 1e-2, truncated
      [] e.k = "plan" -> C("plan_frames", e.frames = e.want) \o C("unchanged", e.before = e.after)
Follow(s, e) == IF ~e.ok THEN s ELSE
    CASE e.k = "open" -> [s EXCEPT !.cam = Camera(e)]
      [] e.k = "press" -> [s EXCEPT !.cam = Key(s.cam, e.key)]
      [] e.k = "grey" -> [s EXCEPT !.stack = e.layers]
      [] e.k = "pedal" -> [s EXCEPT !.last = e.got]
      [] e.k = "order" -> [s EXCEPT !.last = e.last]
      [] OTHER -> s
L == INSTANCE TraceLoop WITH StartState <- Begin, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
=============================================================================
