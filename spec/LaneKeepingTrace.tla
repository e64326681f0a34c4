---------------------------- MODULE LaneKeepingTrace ----------------------------
(* Recorded episodes of the lane keeping task, attributes observations, and linearised bicycle dynamics.  The state is the number of the followed lane. *)
EXTENDS LaneKeeping, Verdict
VARIABLES l, st, bad, seen
LM == INSTANCE Motion
Components(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol) /\ Near(a[3], b[3], tol) /\ Near(a[4], b[4], tol)
Small(a, b, tol, noise) == Components(a, b, tol + noise)
\* before a step, the vehicle leaves the lane or not; at its border, the record tells
LaneOf(s, e) == IF s = 1 /\ AtBorder(1, e.x, e.y) THEN e.lane ELSE Lane2(s, e.x, e.y)
\* the observation is of lane n, at place p (after a reset: lane 1)
Reference(n, x, y, ref) == /\ Near(ref[1], ReferenceY(n, x, y), 100) /\ Follows(n, x, ref[2] * 10, 300)
                           /\ ref[3] = 0 /\ ref[4] = 0
Observed(n, e) ==
    C("attributes", {e.keys[i] : i \in DOMAIN e.keys} = {e.asked[i] : i \in DOMAIN e.asked} /\ Len(e.keys) = Len(e.asked))
    \o When(e.obs.state # << >>, C("state", Small(e.obs.state, e.state, 3, e.snoise)))
    \o When(e.obs.derivative # << >> /\ e.smooth, C("derivative", Small(e.obs.derivative, e.derivative, 120, e.dnoise)))
    \o When(e.obs.reference_state # << >>, C("reference_lane" \o ToString(n), Reference(n, e.x, e.y, e.obs.reference_state)))
\* dx = A x + B u around straight motion: lateral speed and rotation
Linear(e) == IF Abs(e.v) < 100000 THEN [dlat |-> -Mul6(e.yaw * 10, e.v), dyaw |-> 0]
             ELSE LET slip(w) == Sgn(w) * Sgn(e.v) * (Scaled(Abs(w), Abs(e.v), 5))
                  IN LM!Lateral(e.v, e.vl, e.yaw, e.delta, slip(e.vl + (5 * e.yaw) \div 2), slip(e.vl - (5 * e.yaw) \div 2))
Bounded(x, side, got) == /\ got[1] = x[1] /\ got[4] = x[4]
                         /\ Near(got[2], side[1], 1) /\ Near(got[3], side[2], 1) /\ Near(got[5], side[3], 1) /\ Near(got[6], side[4], 1)
Judge(s, e) ==
    CASE e.k = "start" -> Observed(1, e) \o C("first_lane", e.lane = 1)
      [] e.k = "step" -> C("lane", LaneOf(s, e) = e.lane) \o Observed(LaneOf(s, e), e) \o C("never_ends", ~e.done)
      [] e.k = "noise" -> C("noise_is_there", e.most > 500 /\ e.least < -500) \o C("noise_within", e.most <= 1000 /\ e.least >= -1000)
                          \o C("noise_only_observed", e.same)
      \* the state before the decision, and bounds for that time: of the lateral components, with the others as they are
      [] e.k = "stored" -> C("no_error", e.ok) \o When(e.ok, C("stored_state", e.grown[1] = 1 /\ e.got = e.state)
                           \o C("stored_bounds", e.grown[2] = 1 /\ Len(e.bounds) = 2 /\ \A i \in 1..2 : Bounded(e.state, e.box[i], e.bounds[i])))
      [] e.k = "linear" -> C("no_error", e.ok) \o When(e.ok,
            LET a == Linear(e)  tol(x) == 200 + Abs(x) \div 2000
                y == Mul6(e.v, e.psi * 10) + e.vl
            IN C("linear_lateral", Near(e.got[1], a.dlat, tol(a.dlat)) /\ Near(e.got[2], a.dyaw, tol(a.dyaw)))
               \o C("linear_full", Near(e.full[1], y, tol(y)) /\ Near(e.full[2], e.yaw, 2)
                                   /\ Near(e.full[3], a.dlat, tol(a.dlat)) /\ Near(e.full[4], a.dyaw, tol(a.dyaw)))
               \o C("linear_motion", Near(e.motion[1], LM!MulDiv(e.v, e.ch, 10000) - LM!MulDiv(e.vl, e.sh, 10000), 400)
                                     /\ Near(e.motion[2], LM!MulDiv(e.v, e.sh, 10000) + LM!MulDiv(e.vl, e.ch, 10000), 400)
                                     /\ Near(e.motion[3], e.yaw, 2) /\ Near(e.motion[4], e.acc, 2))
               \o When(e.gentle, C("close_to_nonlinear", Near(e.nonlinear[1], a.dlat, tol(a.dlat)) /\ Near(e.nonlinear[2], a.dyaw, tol(a.dyaw)))))
Follow(s, e) == CASE e.k = "start" -> 1 [] e.k = "step" -> LaneOf(s, e) [] OTHER -> s
L == INSTANCE TraceLoop WITH StartState <- 1, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
=============================================================================
