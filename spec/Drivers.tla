-------------------------------- MODULE Drivers --------------------------------
(***************************************************************************)
(* Simulated drivers: accelerations of the IDM and linear models, and lane *)
(* changes of the MOBIL model.                                             *)
(*                                                                         *)
(* Entities of a scene, in a sequence o (the driver is the first):         *)
(*   kind: "controlled", "plain" (a vehicle without targets), "obstacle"   *)
(*   or "landmark"; v, vx, vy: speed and velocity, ts: target speed (1e-5  *)
(*   m/s); dx, dy: direction (1e-6); lane, target: names of its lanes.     *)
(* d[i][j]: distance from i to j along the lane of i (0.1 mm).             *)
(* Parameters p of the driver: model, comfort, brake0 (comfortable         *)
(* deceleration), sq = sqrt(comfort * brake0), accmax, gain, unsafe (1e-4  *)
(* m/s^2), d0 (0.1 mm), tau, polite (1e-3), k1..k3, q1, q2 (1e-6).         *)
(* Accelerations are in 1e-4 m/s^2, as [a, tol, sat]: when sat, a is only  *)
(* an upper bound.                                                         *)
(***************************************************************************)
EXTENDS Neighbours, Steering
\* documented parameters of the classes of drivers
Documented(c) ==
    [model |-> IF c = "IDMVehicle" THEN "idm" ELSE "linear", comfort |-> 30000, brake0 |-> 50000, sq |-> 38730, accmax |-> 60000,
     gain |-> IF c \in {"AggressiveVehicle", "DefensiveVehicle"} THEN 10000 ELSE 2000, unsafe |-> 20000, d0 |-> 100000,
     tau |-> IF c = "IDMVehicle" THEN 1500 ELSE 2500, polite |-> 0, delay |-> 1000000,
     k1 |-> CASE c = "IDMVehicle" -> 0 [] c = "LinearVehicle" -> 300000 [] c = "AggressiveVehicle" -> 106667 [] OTHER -> 160000,
     k2 |-> CASE c = "IDMVehicle" -> 0 [] c = "LinearVehicle" -> 300000 [] c = "AggressiveVehicle" -> 35556 [] OTHER -> 53333,
     k3 |-> CASE c = "IDMVehicle" -> 0 [] c = "AggressiveVehicle" -> 500000 [] OTHER -> 2000000,
     q1 |-> IF c = "IDMVehicle" THEN 0 ELSE 5000000, q2 |-> IF c = "IDMVehicle" THEN 0 ELSE 8333333]
Most == 40000
Pow4(q) == LET q2 == MulDiv(q, q, 10000) IN MulDiv(q2, q2, 10000)
DesiredGap(p, x, y) ==      \* 0.1 mm
    LET dv == Mul6(x.vx - y.vx, x.dx) + Mul6(x.vy - y.vy, x.dy)
    IN p.d0 + Mul6(x.v, p.tau * 100) + Scaled(Mul6(x.v, dv), 2 * p.sq, 4)
Zero == [a |-> 0, tol |-> 0, sat |-> FALSE]
TargetSpeed(x) == IF x.kind = "controlled" THEN x.ts ELSE 0
Idm(p, x, y, d) ==
    LET vt == Abs(NotZero(TargetSpeed(x), 1000))
        q == Scaled(Max(x.v, 0), vt, 4)
        g == IF y.kind = "none" THEN 0 ELSE Scaled(Abs(DesiredGap(p, x, y)), Abs(NotZero(d, 100)), 4)
        a == MulDiv(10000 - Pow4(Min(q, Most)), p.comfort, 10000)
        b == MulDiv(MulDiv(Min(g, Most), Min(g, Most), 10000), p.comfort, 10000)
    IN [a |-> a - b, tol |-> 60 + (Abs(a) + b) \div 400 + (IF vt < 100000 THEN Abs(a) \div 50 ELSE 0)
                            + (IF y.kind # "none" /\ Abs(d) < 10000 THEN b \div 40 ELSE 0), sat |-> q > Most \/ g > Most]
Linear(p, x, y, d) ==
    LET vt == IF x.kind = "controlled" THEN x.ts - x.v ELSE 0
        safe == p.d0 + Mul6(Max(x.v, 0), p.tau * 100)
        a == Mul6(p.k1, vt) \div 10
             + (IF y.kind = "none" THEN 0 ELSE Mul6(p.k2, Min(y.v - x.v, 0)) \div 10 + Mul6(p.k3, Min(d - safe, 0)))
    IN [a |-> a, tol |-> 30 + Abs(a) \div 20000, sat |-> FALSE]
IsVehicle(x) == x.kind \in {"controlled", "plain"}
Nobody == [kind |-> "none"]
\* acceleration of x behind y at distance d, according to the driver of parameters p
Acceleration(p, x, y, d) == IF ~IsVehicle(x) THEN Zero ELSE IF p.model = "idm" THEN Idm(p, x, y, d) ELSE Linear(p, x, y, d)
Limited(p, a) == [a EXCEPT !.a = Clip(a.a, -p.accmax, p.accmax)]
\* the recorded acceleration g agrees with a
Agrees(a, g) == IF a.sat THEN g <= a.a + a.tol ELSE Near(g, a.a, a.tol)
\* ---- comparisons: "yes", "no", or "unsure" in fixed point
Below(a, c, tol) == IF a < c - tol THEN "yes" ELSE IF a > c + tol THEN "no" ELSE "unsure"
LowAcc(a, c) == IF a.sat THEN (IF a.a < c - a.tol THEN "yes" ELSE "unsure") ELSE Below(a.a, c, a.tol)
\* ---- lane changes
Entity(e, i) == IF i = 0 THEN Nobody ELSE e.o[i]
Acc(e, i, j) == IF i = 0 THEN Zero ELSE Acceleration(e.p, e.o[i], Entity(e, j), IF j = 0 THEN 0 ELSE e.d[i][j])
Kinds(e) == [i \in DOMAIN e.o |-> e.o[i].kind]
CanReach(f) == ~f.forbidden /\ Abs(f.c[1].r) <= 2 * f.width /\ 0 <= f.c[1].s /\ f.c[1].s < f.length + 5000
ReachDoubt(f) == ~f.forbidden /\ (Near(Abs(f.c[1].r), 2 * f.width, 3) \/ Near(f.c[1].s, 0, 3) \/ Near(f.c[1].s, f.length + 5000, 3))
\* should the driver on lane own move to lane f beside it; pref: number of the lane preferred by its route, 0 when it has none
Mobil(e, own, f, pref) ==
    LET k == Kinds(e)
        np == Front(k, f)  nf == Rear(k, f)  op == Front(k, own)  of == Rear(k, own)
        nfp == Acc(e, nf, 1)
        imposed == LowAcc(nfp, -e.p.unsafe)
        me == Acc(e, 1, np)
    IN IF Doubtful(k, f) \/ Doubtful(k, own) THEN "unsure"
       ELSE IF imposed = "yes" THEN "no"
       ELSE IF pref # 0
       THEN IF Sgn(f.id - own.id) # Sgn(pref - own.id) THEN "no"
            ELSE LET hard == LowAcc(me, -e.p.unsafe)
                 IN IF hard = "yes" THEN "no" ELSE IF hard = "unsure" \/ imposed = "unsure" THEN "unsure" ELSE "yes"
       ELSE LET now == Acc(e, 1, op)  nf0 == Acc(e, nf, np)  of0 == Acc(e, of, 1)  ofp == Acc(e, of, op)
                polite == e.p.polite
                gain == me.a - now.a + MulDiv(nfp.a - nf0.a + ofp.a - of0.a, polite, 1000)
                tol == me.tol + now.tol + (IF polite = 0 THEN 0 ELSE nfp.tol + nf0.tol + of0.tol + ofp.tol)
                sat == me.sat \/ now.sat \/ (polite # 0 /\ (nfp.sat \/ nf0.sat \/ of0.sat \/ ofp.sat))
                \* without politeness: a bound of the new acceleration is enough when only it is large
                low == IF sat THEN (IF polite = 0 /\ ~now.sat /\ gain < e.p.gain - tol THEN "yes"
                                    ELSE IF polite = 0 /\ ~me.sat /\ gain > e.p.gain + tol THEN "no" ELSE "unsure")
                       ELSE Below(gain, e.p.gain, tol)
            IN IF low = "yes" THEN "no" ELSE IF low = "unsure" \/ imposed = "unsure" THEN "unsure" ELSE "yes"
Recommended(e, f) == IF ReachDoubt(f) THEN "unsure" ELSE IF ~CanReach(f) THEN "no" ELSE Mobil(e, e.lanes[1], f, e.pref)
\* another driver is already changing to the lane this one is changing to, ahead, and nearer than the desired gap
GivesWay(e) ==
    LET others == {i \in 2..Len(e.o) : e.o[i].kind = "controlled" /\ e.o[i].target = e.o[1].target /\ e.o[i].lane # e.o[1].target}
        in(i, t) == 0 < e.d[1][i] - t /\ e.d[1][i] < DesiredGap(e.p, e.o[1], e.o[i]) + t
    IN IF \E i \in others : in(i, -40) THEN (IF \E i \in others : e.d[1][i] > 40 /\ e.d[1][i] < DesiredGap(e.p, e.o[1], e.o[i]) - 40 THEN "yes" ELSE
            IF \E i \in others : e.d[1][i] > -40 /\ e.d[1][i] < DesiredGap(e.p, e.o[1], e.o[i]) + 40 THEN "unsure" ELSE "no")
       ELSE IF \E i \in others : e.d[1][i] > -40 /\ e.d[1][i] < DesiredGap(e.p, e.o[1], e.o[i]) + 40 THEN "unsure" ELSE "no"
\* what the driver does about lanes: keep, decide (and with which possible targets), or abort
Phase(e) == IF e.crashed \/ ~e.enabled THEN "keep"
            ELSE IF e.o[1].lane # e.o[1].target THEN (IF e.sameroad THEN "changing" ELSE "keep")
            ELSE IF e.timer > e.p.delay THEN "decide" ELSE "keep"
Beside(e) == {i \in DOMAIN e.lanes : Abs(e.lanes[i].id - e.lanes[1].id) = 1}
\* <<verdict, allowed targets>>
Targets(e) ==
    CASE Phase(e) = "keep" -> {e.o[1].target}
      [] Phase(e) = "changing" -> (CASE GivesWay(e) = "yes" -> {e.o[1].lane} [] GivesWay(e) = "no" -> {e.o[1].target}
                                     [] OTHER -> {e.o[1].lane, e.o[1].target})
      [] OTHER -> LET yes == {i \in Beside(e) : Recommended(e, e.lanes[i]) = "yes"}
                      may == {i \in Beside(e) : Recommended(e, e.lanes[i]) = "unsure"}
                  IN {e.lanes[i].name : i \in yes \cup may} \cup (IF yes = {} THEN {e.lanes[1].name} ELSE {})
=============================================================================
