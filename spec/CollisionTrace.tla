---------------------------- MODULE CollisionTrace ----------------------------
(* Overlap tests, and frames in which vehicles may collide. *)
EXTENDS Collision, Verdict
VARIABLES l, st, bad, seen
Say(o) == IF o THEN "yes" ELSE "no"
Judge(s, e) ==
    CASE e.k = "pairs" ->
            All(e.p, LAMBDA x : LET o == Overlap(x.a, x.b) IN
                When(o # "touch", C("overlap_" \o o, Say(x.ab) = o) \o C("overlap_symmetric", x.ab = x.ba)))
      [] e.k = "frame" ->
            LET box == [i \in DOMAIN e.box |-> Body(e.box[i])]
                tab == [i \in DOMAIN box |-> [j \in DOMAIN box |-> IF i = j THEN "no" ELSE Overlap(box[i], box[j])]]
                ov(i, j) == tab[i][j]
                b == e.before  a == e.after
                any == \E i \in Vehicles(b), j \in DOMAIN b : ov(i, j) # "no"
                new == \E i \in Vehicles(b) : a[i].crashed /\ ~b[i].crashed
            IN C("no_error", e.ok) \o
               When(e.ok, When(any, C("overlapping_crash", AllCrash(b, a, ov)))
               \o C("no_other_crash", NoneElse(b, a, ov)) \o When(new, C("new_crash", TRUE))
               \o C("never_undone", NeverUndone(b, a))
               \o When(\E i \in DOMAIN b : b[i].kind # "vehicle", C("objects_hit", ObjectsHit(b, a, ov)))
               \o C("speeds_kept", SpeedsKept(b, a, ov))
               \o When(any, C("never_faster", Slower(b, a)) \o C("shared_speed", Shared(b, a, ov))))
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
