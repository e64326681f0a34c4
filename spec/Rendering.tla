------------------------------- MODULE Rendering -------------------------------
(***************************************************************************)
(* What an image of an environment shows, and when it is drawn again.      *)
(* Lengths are in cm, pixels in hundredths, scalings in 1e-3 pixel/m,      *)
(* directions in 1e-4.                                                     *)
(***************************************************************************)
EXTENDS Arith
\* ---- the camera: focus of the window (world), scaling, place of the focus in the window
Camera(cfg) == [w |-> cfg.w, h |-> cfg.h, scale |-> cfg.scale, ox |-> cfg.cx * cfg.w, oy |-> cfg.cy * cfg.h]
\* keys of the window
Key(cam, key) == CASE key = "o" -> [cam EXCEPT !.scale = (@ * 13) \div 10]
                   [] key = "l" -> [cam EXCEPT !.scale = (@ * 10) \div 13]
                   [] key = "m" -> [cam EXCEPT !.ox = @ - 10 * cam.w]
                   [] key = "k" -> [cam EXCEPT !.ox = @ + 10 * cam.w]
                   [] OTHER -> cam
\* place of a point in the window
At(cam, focus, p) == << ((p[1] - focus[1]) * cam.scale) \div 1000 + cam.ox, ((p[2] - focus[2]) * cam.scale) \div 1000 + cam.oy >>
Pixels(cam, length) == (length * cam.scale) \div 1000
InWindow(cam, q, margin) == -margin < q[1] /\ q[1] < 100 * cam.w + margin /\ -margin < q[2] /\ q[2] < 100 * cam.h + margin
\* whether pixel p is within a rotated rectangle placed at q, that is reduced by cut (ends) and trim (sides)
Covers(q, v, half, side, p) ==
    LET dx == p[1] - q[1]  dy == p[2] - q[2] IN
    /\ Abs(dx) + Abs(dy) < 80000
    /\ half > 0 /\ side > 0
    /\ Abs(dx * v.c + dy * v.s) < half * 10000
    /\ Abs(dy * v.c - dx * v.s) < side * 10000
PX == 400                                       \* 4 pixels
Hub == 60                                       \* wheels stick out of the vehicles that show them
Surely(cam, focus, v, p) == LET q == At(cam, focus, <<v.x, v.y>>) IN
    /\ InWindow(cam, q, 4500)
    /\ Covers(q, v, Pixels(cam, v.length \div 2 - (IF v.wheels THEN 100 ELSE 0)) - PX, Pixels(cam, v.width \div 2) - PX, p)
Maybe(cam, focus, v, p) == LET q == At(cam, focus, <<v.x, v.y>>)  o == IF v.wheels THEN Hub ELSE 0 IN
    Covers(q, v, Pixels(cam, v.length \div 2 + o) + PX, Pixels(cam, v.width \div 2 + o) + PX, p)
\* ---- colours
Red == <<255, 100, 100>>
Green == <<50, 200, 0>>
Blue == <<100, 200, 255>>
Yellow == <<200, 200, 0>>
White == <<255, 255, 255>>
Ground == <<100, 100, 100>>
Colour(v) == CASE v.paint # << >> -> v.paint
               [] v.what = "landmark" -> (IF v.hit THEN Green ELSE Blue)
               [] v.what = "obstacle" -> (IF v.hit THEN Red ELSE Yellow)
               [] v.hit -> Red
               [] v.what = "linear" -> Yellow
               [] v.what = "idm" -> Blue
               [] v.what = "mdp" -> Green
               [] OTHER -> Yellow
\* ---- marks of the sides of lanes: s along the lane of this length
Dash(kind) == IF kind = "striped" THEN 300 ELSE 500
Drawn(kind, s, length) == LET k == s \div 500 IN Min(500 * k + Dash(kind), length) - 500 * k > 150
Marked(kind, s, length) ==
    /\ kind # "none" /\ s > 60 /\ s < length - 60
    /\ IF kind = "line" THEN TRUE ELSE Drawn(kind, s, length) /\ (kind = "striped" => s % 500 > 60 /\ s % 500 < 240)
MarkPossible(kind, s, length) ==
    /\ kind # "none" /\ s > -100 /\ s < length + 100
    /\ ~(kind = "striped" /\ s % 500 > 360 /\ s % 500 < 440)
\* ---- when it is drawn: the images of a viewer, if there is one; what is needed; what the world is like
Idle == [now |-> 0, open |-> FALSE, image |-> -1, stale |-> TRUE]
Moved(s) == [s EXCEPT !.now = @ + 1, !.stale = TRUE]
\* a copy of an environment, and an environment that was closed, have no viewer
Unopened(s) == [s EXCEPT !.open = FALSE, !.image = -1]
Rendered(s, human) == [s EXCEPT !.open = TRUE, !.image = IF s.stale \/ ~s.open THEN s.now ELSE @, !.stale = IF human THEN FALSE ELSE @]
ShowsNow(s) == s.image = s.now
\* the panels of a window, and those of an agent: the image of both is twice as high, or as wide
Panels(w, h, both) == IF ~both THEN <<h, w, 3>> ELSE IF w > h THEN <<2 * h, w, 3>> ELSE <<h, 2 * w, 3>>
\* ---- a stack of grey images, the last one last
Grey(weights, rgb) == weights[1] * rgb[1] + weights[2] * rgb[2] + weights[3] * rgb[3]
Stacked(stack, new) == Append(Tail(stack), new)
\* ---- keys that drive
Pedal(last, key, down, lateral, longitudinal) ==
    LET st == Len(last) IN
    CASE key = "right" /\ lateral -> [last EXCEPT ![st] = IF down THEN 70 ELSE 0]
      [] key = "left" /\ lateral -> [last EXCEPT ![st] = IF down THEN -70 ELSE 0]
      [] key = "down" /\ longitudinal -> [last EXCEPT ![1] = IF down THEN -70 ELSE 0]
      [] key = "up" /\ longitudinal -> [last EXCEPT ![1] = IF down THEN 70 ELSE 0]
      [] OTHER -> last
Order(key, down, lateral, longitudinal) ==
    CASE ~down -> "none"
      [] key = "right" /\ longitudinal -> "FASTER"
      [] key = "left" /\ longitudinal -> "SLOWER"
      [] key = "down" /\ lateral -> "LANE_RIGHT"
      [] key = "up" /\ lateral -> "LANE_LEFT"
      [] OTHER -> "none"
=============================================================================
