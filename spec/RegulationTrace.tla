---------------------------- MODULE RegulationTrace ----------------------------
(* Recorded enforcements of the rules of priority, and their schedule. *)
EXTENDS Regulation, Lanes, Verdict
VARIABLES l, st, bad, seen
Pair(e, i, j) == IF i < j THEN <<e.v[i], e.v[j]>> ELSE <<e.v[j], e.v[i]>>
\* "must", "may" or "not" be told to yield
Say(e, tab, i) ==
    LET N == DOMAIN e.v
        me(j) == IF i < j THEN "first" ELSE "second"
        who(j) == Yielder(Pair(e, i, j)[1], Pair(e, i, j)[2])
        c(j) == IF i < j THEN tab[i][j] ELSE tab[j][i]
    IN IF \E j \in N \ {i} : c(j) = "yes" /\ who(j) = {me(j)} THEN "must"
       ELSE IF \E j \in N \ {i} : c(j) # "no" /\ me(j) \in who(j) THEN "may" ELSE "not"
Is(a, o) == /\ a.yielding = o.yielding /\ Near(a.target, o.target, 2) /\ (o.yielding => a.timer = o.timer)
Enforced(e) ==
    LET tab == [i \in DOMAIN e.v |-> [j \in DOMAIN e.v |-> IF i < j THEN Conflict(e.v[i], e.v[j]) ELSE "no"]]
        some == \E i \in DOMAIN e.v, j \in DOMAIN e.v : i < j /\ tab[i][j] = "yes"
        s(i) == Say(e, tab, i)
        R(i, told) == Is(e.after[i], Outcome(e.v[i], e.lasts, told))
        each(i) == LET k == s(i) IN
            IF k = "may" THEN C("either", R(i, TRUE) \/ R(i, FALSE))
            ELSE IF k = "must"
            THEN IF e.v[i].yields THEN C(IF e.v[i].yielding THEN "keeps_yielding" ELSE "yields", R(i, TRUE))
                 ELSE C("not_concerned", R(i, TRUE))
            ELSE IF ~e.v[i].yielding THEN C("goes_on", R(i, FALSE))
            ELSE IF e.v[i].timer >= e.lasts THEN C("released", R(i, FALSE)) ELSE C("waits", R(i, FALSE))
        colour(i) == C("colour", e.after[i].yielding = e.after[i].coloured \/ ~e.v[i].yields)
        RECURSIVE F(_)
        F(i) == IF i > Len(e.v) THEN << >> ELSE each(i) \o colour(i) \o F(i + 1)
    IN F(1) \o When(some, C("conflict", TRUE)) \o C("nothing_else", e.same)
Judge(s, e) ==
    IF ~e.ok THEN C("no_error", FALSE)
    ELSE CASE e.k = "enforce" -> Enforced(e)
           [] e.k = "frame" -> C("schedule", e.enforced = (IF e.n % Period(e.frequency, 2) = 0 THEN 1 ELSE 0))
                               \o When(e.enforced > 0, C("before_motion", e.first)) \o C("counted", e.after = e.n)
           \* the poses used as predictions in enforcements
           [] e.k = "pose" -> LET q == AlongRoute(e.route, e.s) IN
                 C("witness", At(q.lane, q.s, 0, e.p) /\ Along(q.lane, q.s, e.h))
           [] e.k = "priority" -> LET horizontal == e.corner % 2 = 1 IN
                 C("priority_" \o e.turn, e.prio = (IF horizontal THEN 3 ELSE 1) - (IF e.turn = "left" THEN 1 ELSE 0))
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
