----------------------------- MODULE IntervalsTrace -----------------------------
(* Recorded interval arithmetic, predictor steps (integers), and journeys of predictors with those of systems they should contain (1e-4): the state is that of
   the system. *)
EXTENDS Intervals, Verdict
VARIABLES l, st, bad, seen
Corner(i) == CASE i = 1 -> <<1, 1>> [] i = 2 -> <<1, 2>> [] i = 3 -> <<2, 1>> [] OTHER -> <<2, 2>>
Corners(a, b) == [i \in 1..4 |-> <<a[Corner(i)[1]], b[Corner(i)[2]]>>]
HullOf(s) == Hull(Range(s))
\* a straight lane from <<ox, oy>> along <<c, s>> / 5
Along(e, p) == e.c * (p[1] - e.ox) + e.s * (p[2] - e.oy)
Across(e, p) == e.c * (p[2] - e.oy) - e.s * (p[1] - e.ox)
PlaceX(e, p) == 5 * e.ox + e.c * p[1] - e.s * p[2]
PlaceY(e, p) == 5 * e.oy + e.s * p[1] + e.c * p[2]
Minus(x, c) == [i \in DOMAIN x |-> x[i] - c[i]]
Input(b, u) == [i \in DOMAIN b |-> SumSeq([j \in DOMAIN u |-> b[i][j] * u[j]])]
Perturbation(d, w) == [i \in DOMAIN d |-> ScaleDot(d[i], w)]
\* system of a journey in 1e-4, one frame of 1/n s
Moved(e, x) == LET q == System(e.a0, e.da, e.vertex, Minus(x, e.center), e.input, [i \in DOMAIN x |-> SumSeq([j \in DOMAIN e.w |-> e.d[i][j] * e.w[j]])])
               IN [i \in DOMAIN x |-> x[i] + q[i] \div e.n]
Judge(s, e) ==
    IF ~e.ok THEN C("no_error", FALSE) ELSE
    CASE e.k = "product" -> C("product", e.got = Dot(e.a, e.b))
      [] e.k = "rows" -> C("product_matrix", e.got = [i \in DOMAIN e.a |-> Dot(e.a[i], e.b)])
      [] e.k = "scaling" -> C("scaling", e.got = [i \in DOMAIN e.a |-> ScaleDot(e.a[i], e.b)])
      [] e.k = "diff" -> C("difference", e.got = Diff(e.a, e.b))
      [] e.k = "negative" -> C("negative_part", e.got = Negative(e.a))
      [] e.k = "integrator" -> C("integrator" \o (IF Straddles(e.a) THEN "_around_0" ELSE ""), e.got = Integrator(e.a, e.b))
      [] e.k = "section" -> C("section", e.got = ScaleDot(e.dir, e.a) /\ e.got = HullOf([i \in 1..4 |-> LET p == Corners(e.a[1], e.a[2])[i] IN e.dir[1] * p[1] + e.dir[2] * p[2]]))
      [] e.k = "local" -> C("to_local", LET q == Corners(e.a[1], e.a[2]) IN
            e.got = <<HullOf([i \in 1..4 |-> Along(e, q[i])]), HullOf([i \in 1..4 |-> Across(e, q[i])])>>)
      [] e.k = "absolute" -> C("to_absolute", LET q == Corners(e.a[1], e.a[2]) IN
            e.got = <<HullOf([i \in 1..4 |-> PlaceX(e, q[i])]), HullOf([i \in 1..4 |-> PlaceY(e, q[i])])>>)
      [] e.k = "metzler" -> C("metzler", e.got = Metzler(e.a))
      \* a matrix m0 + p1 m1 + p2 m2 of parameters in a box: centre, and deviations at the corners of the box (doubled)
      [] e.k = "polytope" ->
            LET at(p) == [i \in 1..2 |-> [j \in 1..2 |-> 2 * e.m0[i][j] + p[1] * e.m1[i][j] + p[2] * e.m2[i][j]]]
                mid == at(<<e.box[1][1] + e.box[1][2], e.box[2][1] + e.box[2][2]>>)
                q == Corners(e.box[1], e.box[2])
            IN C("polytope_centre", e.a0 = mid)
               \o C("polytope_corners", {e.da[k] : k \in DOMAIN e.da} =
                    {LET v == at(<<2 * q[i][1], 2 * q[i][2]>>) IN [r \in 1..2 |-> [j \in 1..2 |-> v[r][j] - mid[r][j]]] : i \in 1..4})
      [] e.k = "predict" ->
            LET box == [i \in DOMAIN e.box |-> <<e.box[i][1] - e.center[i], e.box[i][2] - e.center[i]>>]
                d == Bounds(e.a0, e.da, box, Input(e.b, e.u), Perturbation(e.d, e.w))
            IN C(IF Metzler(e.a0) THEN "predictor" ELSE "naive_predictor",
                 e.got = [i \in DOMAIN box |-> <<e.n * box[i][1] + d[i][1], e.n * box[i][2] + d[i][2]>>])
      [] e.k = "from" -> C("starts_around", \A i \in DOMAIN e.x : e.lo[i] - 1 <= e.x[i] /\ e.x[i] <= e.hi[i] + 1)
      [] e.k = "around" -> C("there_and_back", \A i \in DOMAIN e.x : Near(e.got[i], e.x[i], 2)) \o C("keeps_arguments", e.kept)
      [] e.k = "move" -> LET x == Moved(e, s) IN
            C(IF e.turned THEN "contains_turned" ELSE IF e.closed THEN "contains_closed_loop" ELSE IF e.metzler THEN "contains" ELSE "contains_naive",
              \A i \in DOMAIN x : e.lo[i] - e.tol <= x[i] /\ x[i] <= e.hi[i] + e.tol)
            \o When(e.vertex = 0 /\ e.exact, C("certain", \A i \in DOMAIN x : e.hi[i] - e.lo[i] <= e.tol))
            \o When(e.nominal # << >>, C("nominal", \A i \in DOMAIN x : Near(e.nominal[i], x[i], e.tol)))
Follow(s, e) == IF ~e.ok THEN s ELSE CASE e.k = "from" -> e.x [] e.k = "move" -> Moved(e, s) [] OTHER -> s
L == INSTANCE TraceLoop WITH StartState <- << >>, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
=============================================================================
