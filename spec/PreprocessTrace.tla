---------------------------- MODULE PreprocessTrace ----------------------------
EXTENDS Preprocess, Verdict
VARIABLES l, st, bad, seen
Judge(s, e) ==
    C("no_error", e.ok) \o When(e.ok,
    CASE e.op = "copy" -> C("copy_equal", e.got = e.orig /\ e.objects)
      [] e.op = "simplify" -> When(~Unsure(e.orig), C("simplify", Simplified(e.orig, e.got) /\ e.objects))
      [] e.op = "change" -> C("change_vehicles", Changed(e.orig, e.got, e.cls) /\ e.objects)
      [] e.op = "lane" -> C("preferred_lane", Preferred(e.orig, e.got, e.value))
      [] e.op = "route" -> C("route_at_intersection", Routed(e.orig, e.got, e.alts))
      [] e.op = "call" -> C("vehicle_method", Called(e.orig, e.got, e.alts) /\ e.objects)
      [] e.op = "field" -> C("vehicle_field", FieldSet(e.orig, e.got, e.value))
      [] e.op = "random" -> C("randomize", Randomised(e.orig, e.got))
    \o C("nothing_shared", e.shared = 0))
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
