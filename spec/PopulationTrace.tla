---------------------------- MODULE PopulationTrace ----------------------------
EXTENDS Population, Verdict
VARIABLES l, st, bad, seen
\* an attempt to add a vehicle: e.p place, e.others places of those present, e.arm entrance (-1: elsewhere), e.s along it, e.r beside
Attempt(e) ==
    LET f == Free(e.p, Range(e.others), Room) IN
    C("at_an_entrance", e.arm \in 0..3 /\ Abs(e.r) <= 2 /\ e.along)
    \o C("speed", Near(e.speed, 8000, IF e.what = "challenger" THEN 0 ELSE 6000))
    \o C("place_" \o e.what,
         CASE e.what = "challenger" -> Near(e.s, 65000, 700)
           [] e.what = "early" -> \E i \in 0..(e.n - 2) : Near(e.s, 5000 + (80000 * i) \div Max(e.n - 1, 1), 6001)
           [] OTHER -> Near(e.s, 5000, 6000))
    \o (IF e.added = "unknown" \/ f = "touch" THEN << >>
        ELSE C("room_" \o f, e.added = f))
    \o When(e.added = "yes", C("destination", e.to \in 0..3 /\ e.to # e.arm /\ (e.what = "challenger" => e.to = Straight(e.arm)))
                             \o C("way", e.route) \o C("own_behaviour", e.randomized))
Judge(st0, e) ==
    IF ~e.ok THEN C("no_error", FALSE)
    ELSE CASE e.k = "attempt" -> Attempt(e)
           [] e.k = "reset" ->
                C("agents", \A i \in DOMAIN e.agents : LET a == e.agents[i] IN
                    a.present /\ a.arm = (i - 1) % 4 /\ Abs(a.r) <= 2 /\ Near(a.s, 60000, 30000) /\ a.speed = 10000 /\ a.target = 9000 /\ a.along
                    /\ a.allowed = <<0, 4500, 9000>>)
                \o C("agents_go", \A i \in DOMAIN e.agents : LET a == e.agents[i] IN
                        IF e.destination = "random" THEN a.to \in {"o1", "o2", "o3"} ELSE a.to = e.destination)
                \o C("calm", \A i \in DOMAIN e.agents : \A q \in Range(e.others) : Within(e.agents[i].p, q, Calm) # "yes")
                \o C("at_most", Len(e.others) <= Max(e.n - 1, 0) + 1)
                \o C("one_challenger", e.challengers <= 1)
                \o When(e.challengers = 1, C("simulated", e.frames = 3 * e.frequency))
           [] e.k = "step" ->
                C("left", \A i \in DOMAIN e.v : LET v == e.v[i] IN (MustLeave(v) => ~v.kept) /\ (~v.kept => MayLeave(v)))
                \o When(\E i \in DOMAIN e.v : MustLeave(e.v[i]), C("some_left", TRUE))
                \o C("one_at_most", e.new <= 1)
                \o When(e.p = 0, C("never", e.new = 0 /\ e.attempts = 0))
                \o When(e.p = 100 /\ \A i \in DOMAIN e.entries : Free(e.entries[i], Range(e.places), 23000) = "yes", C("always", e.new = 1))
                \o When(e.p = 100, C("tries", e.new = 0 => e.attempts <= 1))
           [] e.k = "challengers" -> C("challenger", 2 * e.seen > e.resets)
           [] e.k = "crowd" -> C("agents_entrances", Len(e.agents) = e.n /\ \A i \in DOMAIN e.agents : LET a == e.agents[i] IN
                    a.arm = (i - 1) % 4 /\ Abs(a.r) <= 2 /\ Near(a.s, 60000, 30000) /\ a.along)
           \* deviations in mm and mm/s of a standard deviation of 1 (5 sigma of the estimate and more)
           [] e.k = "spread" -> LET m == SumSeq([i \in DOMAIN e.x |-> (e.x[i] * e.x[i]) \div 1000]) \div Len(e.x)
                                    b == SumSeq(e.x) \div Len(e.x)
                                IN C("spread", Near(m, 1000, e.tol) /\ Near(b, 0, e.tol))
           [] e.k = "rate" -> C("rate", Near((1000 * e.attempts) \div e.steps, 10 * e.p, 160))
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
