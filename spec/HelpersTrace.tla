------------------------------ MODULE HelpersTrace ------------------------------
(* Recorded results of the helpers. *)
EXTENDS Helpers, Verdict
VARIABLES l, st, bad, seen
From(e) == <<e.p[1] - e.at[1], e.p[2] - e.at[2]>>
\* exact in the numbers of the code: along the axes
Plain(r) == r[2] = 0
Judge(s, e) ==
    IF ~e.ok THEN C("no_error", FALSE) ELSE
    CASE e.k = "box" -> C("point_in_rectangle", e.got = InBox(e.p, e.low, e.high))
      [] e.k = "rectangle" -> When(~OnRectangle(From(e), e.r, e.length, e.width) \/ e.r = <<1, 0, 1>>,
            C("point_in_rotated_rectangle", e.got = InRectangle(From(e), e.r, e.length, e.width)))
            \o When(OnRectangle(From(e), e.r, e.length, e.width) /\ e.r = <<1, 0, 1>>, C("border_included", e.got))
      [] e.k = "ellipse" -> When(~OnEllipse(From(e), e.r, e.length, e.width), C("point_in_ellipse", e.got = InEllipse(From(e), e.r, e.length, e.width)))
      [] e.k = "wrap" -> C("wrap_to_pi", e.got = Wrap(e.a) * 1000 \/ (Wrap(e.a) = -12 /\ e.got = 12000))
      [] e.k = "map" -> C("linear_map", Maps(e.v, e.x, e.y, e.got, 100000, Abs(e.x[2] - e.x[1])))
      [] e.k = "zero" -> C("not_zero", e.got \in NotZero(e.x, e.eps))
      [] e.k = "constrain" -> C("constrain", e.got = Clip(e.x, e.low, e.high))
      [] e.k = "every" -> C("do_every", e.got = (e.duration < e.timer))
      [] e.k = "class" -> C("class_from_path", e.got = e.path)
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
