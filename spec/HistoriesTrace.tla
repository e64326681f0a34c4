---------------------------- MODULE HistoriesTrace ----------------------------
(* Recorded operations on environments, with a digest of every live environment after each. *)
EXTENDS Histories, Verdict
VARIABLES l, st, bad, seen
\* digests: sequence of [id, d]
Known(s, t) == t \in DOMAIN s.dig
Judge(s, e) ==
    LET n == Apply(s, e) IN
    C("no_error", e.ok)
    \o All(e.digests, LAMBDA x :
        LET t == n.env[x.id].term
        IN When(Known(s, t),
              C((IF x.id = e.id THEN "reproduced_by_" ELSE "undisturbed_by_") \o e.kind, s.dig[t] = x.d)))
    \o When(e.kind \in {"step", "reset"}, C("past_observations_kept", e.kept))
    \o When(e.config # "", C("given_configuration_kept", e.config = "yes"))
    \o When(e.kind = "class", C("parameters_unchanged", e.attr = ""))
    \o When(e.kind = "variety", C("seeds_matter", Cardinality(Range(e.ds)) > 1))
Follow(s, e) ==
    LET n == Apply(s, e)
        new == {i \in DOMAIN e.digests : ~Known(s, n.env[e.digests[i].id].term)}
    IN [n EXCEPT !.dig = @ @@ [t \in {n.env[e.digests[i].id].term : i \in new} |->
            LET i == CHOOSE i \in new : n.env[e.digests[i].id].term = t IN e.digests[i].d]]
L == INSTANCE TraceLoop WITH StartState <- Empty, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
=============================================================================
