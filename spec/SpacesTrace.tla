----------------------------- MODULE SpacesTrace -----------------------------
(* Observations returned by reset and step belong to the declared space, which is the documented one. *)
EXTENDS Spaces, Verdict
VARIABLES l, st, bad, seen
Start == [space |-> << >>]
Judge(s, e) ==
    CASE e.k = "space" ->
            C("obs_space_" \o e.o.type, e.obs = ObsSpace(e.o)) \o C("action_space", e.act = ActSpace(e.a))
      [] e.k = "obs" ->
            C("no_error", e.ok)
            \o When(e.ok, C("member_" \o e.type, Member(e.v, s.space)) \o C("contains", e.contains)
                          \o C("finite", \A i \in DOMAIN e.v : e.v[i].finite))
Follow(s, e) == IF e.k = "space" THEN [space |-> e.obs] ELSE s
L == INSTANCE TraceLoop WITH StartState <- Start, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
=============================================================================
