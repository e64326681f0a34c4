------------------------------ MODULE MCRendering ------------------------------
(* Environments that are stepped, copied, closed and rendered in any order: images show the present; marks and cameras of small windows. *)
EXTENDS Rendering
VARIABLES s, last, stack, shown, pedals, held
vars == <<s, last, stack, shown, pedals, held>>
Depth == 9
Init == s = Idle /\ last = "make" /\ stack = <<-1, -1, -1>> /\ shown = << >> /\ pedals = <<0, 0>> /\ held = {}
Step == s.now < 4 /\ s' = Moved(s) /\ last' = "step" /\ UNCHANGED <<stack, shown, pedals, held>>
Copy == s.open /\ s' = Unopened(s) /\ last' = "copy" /\ UNCHANGED <<stack, shown, pedals, held>>
Render(human) == s' = Rendered(s, human) /\ last' = "render" /\ UNCHANGED <<stack, shown, pedals, held>>
\* an observation renders, and stacks
Observe == /\ Len(shown) < 5 /\ s' = Rendered(s, FALSE) /\ last' = "render" /\ stack' = Stacked(stack, s'.image) /\ shown' = Append(shown, s.now)
           /\ UNCHANGED <<pedals, held>>
Press(key, down) == /\ s = Idle /\ pedals' = Pedal(pedals, key, down, TRUE, TRUE) /\ held' = IF down THEN held \cup {key} ELSE held \ {key}
                    /\ last' = "key" /\ UNCHANGED <<s, stack, shown>>
Keys == {"left", "right", "up", "down"}
Next == Step \/ Copy \/ Observe \/ (\E h \in BOOLEAN : Render(h)) \/ (\E k \in Keys, d \in BOOLEAN : Press(k, d))
Spec == Init /\ [][Next]_vars
ImagesShowThePresent == last = "render" => ShowsNow(s)
StackIsTheLastImages == \A i \in 0..2 : Len(shown) > i => stack[3 - i] = shown[Len(shown) - i]
PedalsInRange == \A i \in 1..2 : Abs(pedals[i]) <= 70
NothingHeldNothingPressed == held = {} => pedals = <<0, 0>>
\* geometry, checked once
cam == [w |-> 60, h |-> 20, scale |-> 5500, ox |-> 1800, oy |-> 1000]
Dirs == {<<10000, 0>>, <<0, 10000>>, <<-10000, 0>>, <<6000, 8000>>, <<-8000, 6000>>}
ASSUME \A d \in Dirs, x \in {-300, 0, 250}, y \in {-100, 0, 130} :
    LET v == [x |-> x, y |-> y, c |-> d[1], s |-> d[2], length |-> 500, width |-> 200, wheels |-> FALSE]
        q == At(cam, <<0, 0>>, <<x, y>>)
    IN /\ Maybe(cam, <<0, 0>>, v, q) /\ (InWindow(cam, q, 4500) => Surely(cam, <<0, 0>>, v, q))
       /\ \A px \in 0..29, py \in 0..9 : LET p == <<200 * px + 50, 200 * py + 50>> IN
            Surely(cam, <<0, 0>>, v, p) => Maybe(cam, <<0, 0>>, v, p) /\ ~Covers(q, v, 1, 1, <<p[1] + 20000, p[2]>>)
\* the focus stays where it was when the window is zoomed; moving back and forth returns; zooming also, but for rounding
ASSUME \A k \in {"o", "l"} : At(Key(cam, k), <<7, 9>>, <<7, 9>>) = At(cam, <<7, 9>>, <<7, 9>>)
ASSUME Key(Key(cam, "m"), "k") = cam /\ Near(Key(Key(cam, "o"), "l").scale, cam.scale, 1)
\* marks: certain ones are possible; gaps of stripes
ASSUME \A kind \in {"none", "striped", "curve", "line"}, s0 \in {-700, 0, 90, 150, 499, 1000, 1190, 1330}, length \in {1100, 1200, 1400} :
    Marked(kind, s0, length) => MarkPossible(kind, s0, length)
ASSUME Marked("striped", 650, 5000) /\ ~Marked("striped", 900, 5000) /\ ~MarkPossible("striped", 900, 5000) /\ Marked("curve", 900, 5000)
=============================================================================
