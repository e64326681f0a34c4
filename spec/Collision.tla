------------------------------- MODULE Collision -------------------------------
(***************************************************************************)
(* Overlap of rectangles (separating axes), and what a collision does.     *)
(* Rectangles [x, y, l, w, c, s]: centre and size in mm, direction in 1e-4. *)
(***************************************************************************)
EXTENDS Arith
K == 10000
\* twice the excess of the distance along axis <<c, s>> over the half extents, in mm (positive: separated)
Gap(a, b, c, s) ==
    LET dist == Abs((b.x - a.x) * c + (b.y - a.y) * s) \div K
        ext(r) == (r.l * Abs((c * r.c + s * r.s) \div K) + r.w * Abs((c * r.s - s * r.c) \div K)) \div K
    IN 2 * dist - ext(a) - ext(b)
Far(a, b) == Abs(b.x - a.x) > 20000 \/ Abs(b.y - a.y) > 20000
MaxGap(a, b) == SetMax({Gap(a, b, a.c, a.s), Gap(a, b, -a.s, a.c), Gap(a, b, b.c, b.s), Gap(a, b, -b.s, b.c)})
\* "yes", "no", or "touch" when 5 mm could change the answer
Overlap(a, b) == IF Far(a, b) THEN "no"
                 ELSE LET g == MaxGap(a, b) IN IF g > 10 THEN "no" ELSE IF g < -10 THEN "yes" ELSE "touch"
\* vehicles collide with nine tenths of their size
Body(v) == [x |-> v.x, y |-> v.y, l |-> (9 * v.l) \div 10, w |-> (9 * v.w) \div 10, c |-> v.c, s |-> v.s]
\* ---- the rule for two bodies p, q that overlap; kinds: vehicle, obstacle, landmark.
\* a body: [kind, crashed (or hit), speed, enabled]
Slowest(a, b) == IF Abs(b) < Abs(a) THEN b ELSE a
\* p, a vehicle, checks q: the pair after the check
Checked(p, q) ==
    IF p.crashed THEN <<p, q>>
    ELSE CASE q.kind = "vehicle" -> IF ~p.enabled \/ ~q.enabled THEN <<p, q>>
                 ELSE LET m == Slowest(p.speed, q.speed)
                      IN <<[p EXCEPT !.crashed = TRUE, !.speed = m], [q EXCEPT !.crashed = TRUE, !.speed = m]>>
           [] q.kind = "obstacle" -> IF ~p.enabled THEN <<p, q>>
                 ELSE <<[p EXCEPT !.crashed = TRUE, !.speed = 0], [q EXCEPT !.crashed = TRUE]>>
           [] q.kind = "landmark" -> <<p, [q EXCEPT !.crashed = TRUE]>>
\* ---- what holds after a frame, whatever the order of the checks.  before, after: bodies; ov(i, j): overlap
Vehicles(b) == {i \in DOMAIN b : b[i].kind = "vehicle"}
Meets(b, i, j) == b[i].enabled /\ (b[j].kind = "vehicle" => b[j].enabled)
AllCrash(b, a, ov(_, _)) ==
    \A i \in Vehicles(b) : \A j \in DOMAIN b \ {i} :
        (ov(i, j) = "yes" /\ b[j].kind # "landmark" /\ Meets(b, i, j)) => a[i].crashed
NoneElse(b, a, ov(_, _)) ==
    \A i \in DOMAIN b : (a[i].crashed /\ ~b[i].crashed) =>
        IF b[i].kind = "vehicle"
        THEN \E j \in DOMAIN b \ {i} : ov(i, j) # "no" /\ b[j].kind # "landmark" /\ Meets(b, i, j)
        ELSE \E j \in Vehicles(b) : ov(j, i) # "no" /\ ~b[j].crashed /\ (b[i].kind = "obstacle" => b[j].enabled)
NeverUndone(b, a) == \A i \in DOMAIN b : b[i].crashed => a[i].crashed
\* objects overlapped by an intact vehicle that hits nothing else are hit
ObjectsHit(b, a, ov(_, _)) ==
    \A i \in Vehicles(b), j \in DOMAIN b \ Vehicles(b) :
        (ov(i, j) = "yes" /\ ~b[i].crashed /\ (b[j].kind = "obstacle" => b[i].enabled)
          /\ \A k \in DOMAIN b \ {i, j} : ov(i, k) = "no") => a[j].crashed
\* speeds: untouched without a new crash around; never faster; two vehicles alone share the slowest speed; zero on obstacles
Touched(b, a, ov(_, _), i) == \E j \in DOMAIN b \ {i} : ov(i, j) # "no" /\ b[j].kind # "landmark"
SpeedsKept(b, a, ov(_, _)) == \A i \in Vehicles(b) : ~Touched(b, a, ov, i) => a[i].speed = b[i].speed
Slower(b, a) == \A i \in Vehicles(b) : Abs(a[i].speed) <= Abs(b[i].speed)
Alone(b, ov(_, _), i, j) == \A k \in DOMAIN b \ {i, j} : ov(i, k) = "no" /\ (b[j].kind = "vehicle" => ov(j, k) = "no")
Shared(b, a, ov(_, _)) ==
    \A i \in Vehicles(b), j \in DOMAIN b :
        (i # j /\ ov(i, j) = "yes" /\ Alone(b, ov, i, j) /\ Meets(b, i, j)) =>
            CASE b[j].kind = "vehicle" ->
                    IF b[i].crashed /\ b[j].crashed THEN a[i].speed = b[i].speed /\ a[j].speed = b[j].speed
                    ELSE a[i].speed = a[j].speed /\ a[i].speed \in {b[i].speed, b[j].speed}
                         /\ Abs(a[i].speed) = Min(Abs(b[i].speed), Abs(b[j].speed))
              [] b[j].kind = "obstacle" -> ~b[i].crashed => a[i].speed = 0
              [] OTHER -> a[i].speed = b[i].speed
=============================================================================
