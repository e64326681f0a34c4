------------------------------ MODULE DriversTrace ------------------------------
(* Recorded decisions of simulated drivers. *)
EXTENDS Drivers, Verdict
VARIABLES l, st, bad, seen
Own(e) == e.lanes[1]
Longitudinal(e) ==
    When(~Doubtful(Kinds(e), Own(e)), C("drives_" \o e.p.model,
        LET a == Limited(e.p, Acc(e, 1, Front(Kinds(e), Own(e)))) IN
        IF a.sat THEN e.acc <= a.a + a.tol /\ e.acc >= -e.p.accmax - 1 ELSE Near(e.acc, a.a, a.tol)))
    \o C("limits", Abs(e.acc) <= e.p.accmax + 1 /\ Abs(e.steer) <= MaxSteering + 1)
Lateral(e) ==
    When(e.steerable /\ ~HalfTurn(e.fh, e.h, e.hc), IF e.p.model = "idm"
        THEN C("witness", HeadingCommand(e.o[1].v, e.r, e.hc)) \o C("steering_idm", SteeringIs(e.o[1].v, e.fh, e.h, e.hc, e.steer))
        ELSE C("steering_linear", Near(e.steer, LinearSteering(e.o[1].v, e.r, e.fh, e.h, e.p.q1, e.p.q2), 400)))
Lanewise(e) ==
    C("timer", e.newtimer = (IF Phase(e) = "decide" THEN 0 ELSE e.timer))
    \o LET T == Targets(e)
           sure == \A i \in Beside(e) : Recommended(e, e.lanes[i]) # "unsure"
       IN CASE Phase(e) = "keep" -> C("keeps_target", e.newtarget \in T)
            [] Phase(e) = "changing" -> When(GivesWay(e) # "unsure", C("gives_way_" \o GivesWay(e), e.newtarget \in T))
            [] OTHER -> When(sure, C((IF T = {Own(e).name} THEN "stays" ELSE "moves") \o (IF e.pref # 0 THEN "_route" ELSE ""), e.newtarget \in T))
Mul100(a, b) == MulDiv(b, a, 100)
Mul1000(a, b) == MulDiv(a, b, 1000)
Judge(st0, e) ==
    IF ~e.ok THEN C("no_error", FALSE) ELSE
    CASE e.k = "acc" -> LET a == Acceleration(e.p, e.x, e.y, e.d) IN
            C("acceleration_" \o e.p.model \o (IF e.y.kind = "none" THEN "_free" ELSE "") \o (IF e.x.kind = "controlled" THEN "" ELSE "_" \o e.x.kind),
              Agrees(a, e.got))
            \o C("witness", e.p.model = "linear" \/ Near(Mul6(e.p.sq, e.p.sq), Mul6(e.p.comfort, e.p.brake0), 40))
      [] e.k = "gap" -> C("desired_gap", Near(e.got, DesiredGap(e.p, e.x, e.y), 60 + Abs(e.got) \div 8000))
      [] e.k = "drive" -> IF e.crashed THEN C("crashed_decides_nothing", e.same) ELSE Longitudinal(e) \o Lateral(e)
      [] e.k = "change" -> IF e.crashed THEN C("crashed_decides_nothing", e.newtarget = e.o[1].target /\ e.newtimer = e.timer)
                           ELSE When(~e.ended /\ ~Near(e.timer, e.p.delay, 2), Lanewise(e))
      [] e.k = "create" -> C("initial_timer", Near(e.timer, e.expected, 2))
      [] e.k = "frame" -> C("timer_advances", Near(e.after, e.before + e.dt, 2))
      [] e.k = "platoon" -> C("platoon_safe", (\A i \in DOMAIN e.gaps : e.gaps[i] > 50000) /\ ~e.crashed)
      [] e.k = "documented" -> C("documented_parameters", Documented(e.class) = e.p)
      [] e.k = "data" -> C("data_products", Near(e.dot, e.out, 20 + Abs(e.out) \div 20000) /\ Near(e.ldot, e.lout, 20 + Abs(e.lout) \div 20000))
            \o When(~Doubtful(Kinds(e), Own(e)), C("data_acceleration", LET a == Acc(e, 1, Front(Kinds(e), Own(e))) IN Agrees(a, e.out)))
            \o When(e.steerable /\ ~HalfTurn(e.fh, e.h, 0), C("data_steering",
                Near(Clip(e.lout, -MaxSteering, MaxSteering), LinearSteering(e.o[1].v, e.r, e.fh, e.h, e.p.q1, e.p.q2), 400)))
      [] e.k = "maximum" ->
            LET m == e.got[1]  h == m \div 10
                \* braking distances (times 2 b) in (cm/s)^2: after the delay tau; of the front vehicle, after the free gap
                own == 2 * Mul100(e.p.brake0, Mul1000(e.p.tau, h)) + h * h
                left == Max(e.d - e.p.d0 \div 10, 0)
                front == 2 * Mul100(e.p.brake0, left \div 10) + (e.v1 \div 10) * (e.v1 \div 10)
                control == (Min(IF e.alone THEN e.ts ELSE m, e.ts) - e.v) * 10
            IN C("maximum_speed" \o (IF e.alone THEN "_alone" ELSE ""),
                 /\ IF e.alone THEN m = e.ts ELSE m >= 0 /\ Near(own, front, 6 * h + 3000 + Abs(e.v1) \div 2 + 2 * (e.p.brake0 \div 50))
                 /\ Near(e.newts, IF e.alone THEN e.ts ELSE Min(m, e.ts), 1)
                 \* speed control: 1 / 0.6 s
                 /\ Near(6 * e.got[2], control, 30))
      [] e.k = "recover" ->
            LET k == Kinds(e)  own == Rear(k, Own(e))  new == Rear(k, e.lanes[e.at])
                free(i) == i = 0 \/ e.behind[i] > 200000
                wrong == e.at # 1 /\ e.o[1].v < 500000
            IN When(~Doubtful(k, Own(e)) /\ ~Doubtful(k, e.lanes[e.at]),
                 IF wrong /\ free(own) /\ free(new) THEN C("recovers", Near(2 * e.got, -e.p.comfort, 2)) ELSE C("does_not_reverse", e.got = 12500))
      [] e.k = "random" -> C("randomized", e.inside) \o C("own_parameters", e.own)
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
