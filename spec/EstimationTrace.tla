---------------------------- MODULE EstimationTrace ----------------------------
(* Recorded regressions (features integers, outputs in 1/10, parameters in 1e-3), consistency verdicts, and the possible routes of watched vehicles: the state is
   the network, and the last hypotheses of each vehicle. *)
EXTENDS Estimation, Verdict
VARIABLES l, st, bad, seen
Start == [net |-> << >>, hyps |-> << >>, count |-> << >>]
Directions2 == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, -1>>, <<2, 1>>, <<-1, 2>>, <<1, 2>>, <<-2, 1>>}
Directions3 == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, 0, -1>>, <<0, 1, 1>>, <<1, 1, 1>>, <<1, -1, 1>>, <<-1, 1, 1>>, <<1, 1, -1>>}
DotP(a, b) == SumSeq([i \in DOMAIN a |-> a[i] * b[i]])
Reach(vs, c) == SetMax({DotP(v, c) : v \in Range(vs)})
\* squared radius in 1e-2, from the radius in 1e-3
Square(beta) == (beta * beta) \div 10000
Regression(e) ==
    LET M == Gram(e.f)  v == Moment(e.f, e.y)  d == Len(M)  full == Det(M) # 0
        b0 == (e.beta * 10 - Bias(d, e.bound)) \div 10       \* without the bias, in 1e-3
        b2 == Square(e.beta)
        cut == e.theta # e.free \/ \E k \in DOMAIN e.vertices : \E i \in 1..d : LET x == e.theta[i] + e.vertices[k][i] IN x <= e.box[1][i] + 1 \/ x >= e.box[2][i] - 1
        small == \A k \in DOMAIN e.vertices : \A i \in 1..d : Abs(e.vertices[k][i]) <= 2000
        dt == IF e.truth = << >> THEN << >> ELSE [i \in 1..d |-> e.free[i] - e.truth[i]]
    IN C("gramian", \A i, j \in 1..d : Near(e.gram[i][j], 1000 * M[i][j], 1))                  \* in 1e-2
       \o C("least_squares", \A i \in 1..d : Near(Mat(M, e.free)[i], 100 * v[i], Weight(M[i]) + 2))
       \o When(~full /\ d = 2, C("unseen_direction", \A u \in {<<-M[1][2], M[1][1]>>, <<M[2][2], -M[1][2]>>} : Abs(DotP(u, e.free)) <= Weight(u) + 1))
       \o C("confidence_radius", Near((b0 * b0) \div 100, Radius2(M), 30 + e.beta \div 25))
       \o C("estimate_in_box", e.theta = [i \in 1..d |-> Clip(e.free[i], e.box[1][i], e.box[2][i])])
       \o C("vertices_in_box", Len(e.vertices) = 2 ^ d /\ \A k \in DOMAIN e.vertices : \A i \in 1..d :
                e.theta[i] + e.vertices[k][i] >= e.box[1][i] - 1 /\ e.theta[i] + e.vertices[k][i] <= e.box[2][i] + 1)
       \o When(full /\ ~cut /\ small,
            C("polytope_encloses", \A c \in (IF d = 1 THEN {<<1>>, <<-1>>} ELSE IF d = 2 THEN Directions2 ELSE Directions3) :
                LET r == Reach(e.vertices, c) + 3 IN r > 0 /\ ((r * r) \div 100) * 103 >= Scaled(b2 * DotP(c, Mat(Adj(M), c)), 10 * Det(M), 4))
            \o C("polytope_close", \A k \in DOMAIN e.vertices :
                LET x == e.vertices[k]
                    q == SumSeq([i \in 1..d |-> SumSeq([j \in 1..d |-> M[i][j] * ((x[i] * x[j]) \div 100)])])
                IN Near(q, 10 * d * b2, (d * b2) \div 2 + 400 + SumSeq([i \in 1..d |-> Weight(M[i]) * (1 + Abs(x[i]) \div 50)]))))
       \o When(e.truth # << >> /\ full /\ \A i \in 1..d : Abs(dt[i]) <= 3000,
            C("truth_inside", SumSeq([i \in 1..d |-> SumSeq([j \in 1..d |-> M[i][j] * ((dt[i] * dt[j]) \div 100)])]) <= 10 * b2))
       \o C("keeps_data", e.kept)
\* the last of the data, after an estimate, radius and Gram matrix of the others
Consistency(e) ==
    LET M == Gram(e.f)  err == Abs(10 * e.last.y - DotP(e.last.f, e.theta) \div 10)     \* in 1e-2
        r == err - 10  p == DotP(e.last.f, e.last.f)
        t == (p * Square(e.beta) * 1000) \div Max(r * r, 1)
        valid(k) == r <= 0 \/ Below(M, (Min(t, 1000000) * k) \div 100)
    IN When(Len(M) = 2 /\ Det(M) # 0 /\ r # 0,
            When(r < 0 \/ (r > 3 /\ valid(93)), C("accepted", e.consistent))
            \o When(r > 3 /\ ~valid(107), C("rejected", ~e.consistent)))
       \o C("keeps_data", e.kept)
\* matrices A + theta . phi, and deviations
Structure(e) ==
    LET sum(base, p) == [i \in DOMAIN e.a |-> [j \in DOMAIN e.a |-> base[i][j] + SumSeq([k \in DOMAIN p |-> (p[k] * e.phi[k][i][j]) \div 100])]]
        near(x, y) == \A i, j \in DOMAIN e.a : Near(x[i][j], y[i][j], 3 * Len(e.phi) + 2)
        row(k, i) == e.phi[k][i]
        zero(k) == \A i, j \in DOMAIN e.a : e.phi[k][i][j] = 0
    \* speeds are integrated; drivers correct their speed, the speed difference to a front vehicle that they approach, and the distance to it
    IN C("dynamics_" \o e.side, IF e.side = "lateral"
            THEN e.a = << <<0, 100>>, <<0, 0>> >> /\ e.phi = << << <<0, 0>>, <<0, -100>> >>, << <<0, 0>>, <<-100, 0>> >> >>
            ELSE /\ e.a = << <<0, 0, 100, 0>>, <<0, 0, 0, 100>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0>> >>
                 /\ e.phi[1] = << <<0, 0, 0, 0>>, <<0, 0, 0, 0>>, <<0, 0, -100, 0>>, <<0, 0, 0, -100>> >>
                 /\ IF e.closing THEN row(2, 3) = <<0, 0, -100, 100>> ELSE zero(2)
                 /\ zero(3) \/ (e.front /\ row(3, 3) = <<-100, 100, -250, 0>>))
       \o C("estimated_dynamics", near(e.a0, sum([i \in DOMAIN e.a |-> [j \in DOMAIN e.a |-> 10 * e.a[i][j]]], e.theta)))
       \o C("deviations_dynamics", Len(e.da) = Len(e.vertices) /\ \A k \in DOMAIN e.da : near(e.da[k], sum([i \in DOMAIN e.a |-> [j \in DOMAIN e.a |-> 0]], e.vertices[k])))
Known(s, e) == IF \E i \in DOMAIN s.hyps : s.hyps[i][1] = e.id THEN s.hyps[CHOOSE i \in DOMAIN s.hyps : s.hyps[i][1] = e.id][2] ELSE << >>
Samples(s, e) == IF \E i \in DOMAIN s.hyps : s.hyps[i][1] = e.id THEN s.hyps[CHOOSE i \in DOMAIN s.hyps : s.hyps[i][1] = e.id][3] ELSE << >>
\* the first road of the plan, or of the hypothesis, may have been left already
Follows(h, r) == Agrees(h, r) \/ (Len(r) > 1 /\ Agrees(h, Tail(r))) \/ (Len(h) > 1 /\ Agrees(Tail(h), r))
Watch(s, e) ==
    LET H == Known(s, e)
        learnt == Learn(H, Candidates(s.net, e.plan))
        moved == Advance(learnt, Range(e.passed))
        ok == [i \in DOMAIN moved |-> i > Len(e.consistent) \/ e.consistent[i]]
    IN C("hypotheses", e.hyps = Keep(moved, ok))
       \o C("routes_of_the_network", \A i \in DOMAIN e.hyps : IsRoute(s.net, e.hyps[i]))
       \o When(e.single, C("true_route_kept", e.plan = << >> \/ \E i \in DOMAIN e.hyps : Follows(e.hyps[i], e.plan)))
       \o C("one_more_sample", e.samples = Keep([i \in DOMAIN moved |-> IF i <= Len(H) THEN Samples(s, e)[i] + 1 ELSE 1], ok))
       \* what was last collected for each hypothesis: steering features in 1e-6, with the lateral offset and heading of its first lane
       \o All(e.last, LAMBDA q :
            When(e.v > 5000, C("features_of_hypothesis",
                Near(MulDiv(q.f[1], e.v, 1000), 5 * q.heading, 40 + Abs(q.heading) \div 1000)
                /\ Near(MulDiv(MulDiv(q.f[2], e.v, 1000), e.v, 1000), -5 * q.lateral, 400 + Abs(q.lateral) \div 400)))
            \o When(e.steer < 1047000 /\ e.steer > -1047000, C("output_is_steering", Near(q.y, e.steer, 3)))
            \o C("acceleration_output", Near(q.acc, SumSeq([i \in DOMAIN q.g |-> MulDiv(q.g[i], e.params[i], 10000)]), 12 + Weight(q.g) \div 5000)))
Assume(e) ==
    IF e.n = 0 THEN C("plain_copy", e.same /\ e.route = e.plan)
    ELSE C("assumed_route", e.class = "RegressionVehicle" /\ e.same /\ e.route = e.hyps[Min(e.index, e.n - 1) + 1] /\ e.target = e.route[1])
         \o C("assumed_data", e.data = e.samples[Min(e.index, e.n - 1) + 1])
         \o C("watcher_unchanged", e.kept)
Judge(s, e) ==
    IF ~e.ok THEN C("no_error", FALSE) ELSE
    CASE e.k = "net" -> << >>
      [] e.k = "regression" -> Regression(e)
      [] e.k = "consistency" -> Consistency(e)
      [] e.k = "alone" -> C("single_sample_accepted", e.consistent)
      [] e.k = "structure" -> Structure(e)
      [] e.k = "watch" -> Watch(s, e)
      [] e.k = "assume" -> Assume(e)
      [] e.k = "twin" -> C("watching_changes_nothing", e.a = e.b)
      [] e.k = "forward" -> C("assumed_vehicle_drives", \A i \in DOMAIN e.x : Abs(e.x[i]) < 1000000000)
Follow(s, e) ==
    IF ~e.ok THEN s ELSE
    CASE e.k = "net" -> [s EXCEPT !.net = e.net, !.hyps = << >>]
      [] e.k = "watch" -> [s EXCEPT !.hyps = Append(SelectSeq(@, LAMBDA h : h[1] # e.id), <<e.id, e.hyps, e.samples>>)]
      [] OTHER -> s
L == INSTANCE TraceLoop WITH StartState <- Start, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
=============================================================================
