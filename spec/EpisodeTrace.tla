---------------------------- MODULE EpisodeTrace ----------------------------
(* Recorded decision steps of the real environments, judged against the decision loop of Episode. *)
EXTENDS Episode, Verdict
VARIABLES l, st, bad, seen

Start == [steps |-> 0, time |-> 0, closed |-> FALSE, over |-> FALSE, agents |-> 1]

Nb(seq, P(_)) == Cardinality({i \in DOMAIN seq : P(seq[i])})
IsS(x) == x[1] = "S"
FirstS(seq) == IF \E i \in DOMAIN seq : IsS(seq[i]) THEN CHOOSE i \in DOMAIN seq : IsS(seq[i]) /\ \A j \in 1..(i-1) : ~IsS(seq[j])
               ELSE Len(seq) + 1
\* number of frames completed before position i
FrameOf(seq, i) == Cardinality({j \in 1..(i-1) : IsS(seq[j])})
Forwards(seq, a) == {i \in DOMAIN seq : seq[i] = <<"F", a>>}
Decides(seq, a, k) == {i \in DOMAIN seq : seq[i] = <<"D", a>> /\ FrameOf(seq, i) = k}

JudgeReset(e) == C("reset_ok", e.ok) \o C("reset_zero", e.steps = 0 /\ e.time = 0)

JudgeStep(s, e) ==
    LET k == Nb(e.seq, IsS)
        N == FramesPerStep(e.c.sf, e.c.pf)
        live == ~s.closed /\ ~s.over
        term(i) == Terminal(e.kind, e.frames[i], e.c, e.steps)
        sure(i) == ~OnEdge(e.kind, e.frames[i], e.c)
        lk == e.kind = "lane-keeping"
        A == 1..s.agents
    IN C("step_ok", e.ok)
       \o When(e.ok,
          When(~lk, C("step_counter", e.steps = s.steps + 1))
          \o C("frame_counter", e.time = s.time + k)
          \o C("frame_duration", \A i \in DOMAIN e.seq : IsS(e.seq[i]) => Near(e.seq[i][2], 1000000000 \div e.c.sf, 1))
          \o C("frame_count_max", k <= N)
          \o C("frame_count_min", k >= 1)
          \o When(live /\ k = Len(e.frames),
                C("short_step_only_if_over", k < N => (k = 0 \/ ~sure(k) \/ term(k)))
                \o When(k > 1, C("stops_when_over", \A i \in 1..(k-1) : ~sure(i) \/ ~term(i))))
          \o When(s.closed, C("one_frame_when_closed", k = 1))
          \o When(live /\ ~e.none /\ ~e.c.manual,
                C("action_forwarded_once", \A a \in A : Cardinality(Forwards(e.seq, a)) = 1)
                \o C("action_forwarded_first", \A a \in A : \A i \in Forwards(e.seq, a) : i < FirstS(e.seq)))
          \o When(e.none \/ e.c.manual, C("nothing_forwarded", \A a \in A : Forwards(e.seq, a) = {}))
          \o When(~live, C("at_most_one_forward", \A a \in A : Cardinality(Forwards(e.seq, a)) <= 1))
          \o C("decides_every_frame", \A a \in A : \A n \in 0..(k-1) : Cardinality(Decides(e.seq, a, n)) = 1)
          \o When(~e.none /\ ~e.c.manual, C("forwarded_before_deciding",
                \A a \in A : \A i \in Forwards(e.seq, a) : \A d \in Decides(e.seq, a, FrameOf(e.seq, i)) : i < d)))

Judge(s, e) == CASE e.k = "reset" -> JudgeReset(e)
                 [] e.k = "step" -> JudgeStep(s, e)
                 [] e.k = "close" -> C("close_ok", e.ok)
Follow(s, e) ==
    CASE e.k = "reset" -> [steps |-> e.steps, time |-> e.time, closed |-> FALSE, over |-> FALSE, agents |-> e.agents]
      [] e.k = "step" -> [s EXCEPT !.steps = e.steps, !.time = e.time,
                            !.over = s.over \/ e.done \/ Terminal(e.kind, e.f, e.c, e.steps)]
      [] e.k = "close" -> [s EXCEPT !.closed = TRUE]

L == INSTANCE TraceLoop WITH StartState <- Start, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
=============================================================================
