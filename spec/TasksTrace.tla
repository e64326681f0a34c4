------------------------------- MODULE TasksTrace -------------------------------
(* Recorded road networks and settings of environments. *)
EXTENDS Networks, Defaults, Verdict
VARIABLES l, st, bad, seen
Matching(N0, m) == {k \in DOMAIN N0 : Index(N0[k]) = Index(m)}
Judge(s, e) ==
    CASE e.k = "network" ->
            LET X == Network(e.kind, e.lanes) IN
            C("lanes_" \o e.kind, {Index(X[k]) : k \in DOMAIN X} = {Index(e.net[k]) : k \in DOMAIN e.net} /\ Len(e.net) = Len(X))
            \o All(e.net, LAMBDA m : LET M == Matching(X, m) IN When(M # {}, LET x == X[CHOOSE k \in M : TRUE] IN
                    C("places_" \o e.kind, \A k \in 1..5 : SamePlace(x.p[k], m.p[k], 5)) \o C("length", Near(x.len, m.len, 5))
                    \o C("width", x.w = m.w) \o C("speed_limit", x.v = m.v)
                    \o C("priority", x.pr = m.pr) \o C("closed", x.forb = m.forb)))
      [] e.k = "settings" ->
            LET n == IF e.id = "" THEN <<e.kind, << >> >> ELSE Named(e.id)
                shown == Range(e.got) IN
            C("no_error", e.ok) \o When(e.ok, C("defaults", \A x \in Expected(n[1], e.changed \o n[2]) : x \in shown))
            \o When(e.changed # << >>, C("changed_only_what_was_asked", \A x \in shown : (\A y \in Range(e.changed) : y[1] # x[1]) =>
                    Look(Settings(n[1], n[2]), x[1]) \in {x[2], "?"}))
      \* a setting that is itself a group of settings is the given one as a whole
      [] e.k = "group" -> C("no_error", e.ok) \o When(e.ok, C("given_as_a_whole", Range(e.given) = Range(e.got))
            \o C("others_kept", \A x \in Range(e.others) : Look(Settings(e.kind, << >>), x[1]) \in {x[2], "?"}))
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
