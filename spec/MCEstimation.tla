----------------------------- MODULE MCEstimation -----------------------------
(* A vehicle driving any route of a small network, watched: the route that it takes is never lost, hypotheses are routes of the network, none starts with a
   road that it left, and rejecting those that its behaviour contradicts leaves the true one. *)
EXTENDS Estimation
VARIABLES plan, hyps, moves
vars == <<plan, hyps, moves>>
Net == << <<"w", << <<"a", 2>> >> >>, <<"a", << <<"n", 1>>, <<"s", 2>> >> >>, <<"n", << <<"x", 1>>, <<"y", 1>> >> >>, <<"s", << <<"w", 2>> >> >> >>
Edge(a, b) == LanesOf(Net, a, b) > 0
Nodes == {"w", "a", "n", "s", "x", "y"}
RECURSIVE Paths(_, _)
Paths(a, k) == {<< >>} \cup (IF k = 0 THEN {} ELSE
    UNION {{<< <<a, b, id>> >> \o p : p \in Paths(b, k - 1), id \in -1..(LanesOf(Net, a, b) - 1)} : b \in {n \in Nodes : Edge(a, n)}})
Plans == Paths("w", 4) \ {<< >>}
Init == plan \in Plans /\ hyps = << >> /\ moves = 0
\* the watcher sees the vehicle on its road; some hypotheses contradict its behaviour, never the true one
Watch == LET h == Advance(Learn(hyps, Candidates(Net, plan)), {})
         IN \E bad \in SUBSET {i \in DOMAIN h : ~Agrees(h[i], plan)} : hyps' = Keep(h, [i \in DOMAIN h |-> i \notin bad]) /\ UNCHANGED <<plan, moves>>
\* it goes on to the next road: the plan and the hypotheses that start with this road are stepped
Move == /\ Len(plan) > 1 /\ hyps # << >> /\ moves < 4
        /\ plan' = Tail(plan) /\ moves' = moves + 1
        /\ LET gone == {<<plan[1][1], plan[1][2], id>> : id \in 0..1}
               h == Advance(hyps, gone)
           IN hyps' = Keep(h, [i \in DOMAIN h |-> Len(h[i]) > 0 /\ (\E id \in -1..1 : <<h[i][1][1], h[i][1][2], id>> = <<plan[2][1], plan[2][2], id>>)])
Next == Watch \/ Move
Spec == Init /\ [][Next]_vars
AlwaysTrue == hyps = << >> \/ \E i \in DOMAIN hyps : Agrees(hyps[i], plan)
AllRoutes == \A i \in DOMAIN hyps : IsRoute(Net, hyps[i])
Finite == Len(hyps) <= 6
NoTwice == \A i, j \in DOMAIN hyps : i # j => hyps[i] # hyps[j]
\* the true route is among the candidates themselves, and all of them are routes
CandidatesTrue == /\ \E i \in DOMAIN Candidates(Net, plan) : Agrees(Candidates(Net, plan)[i], plan)
                  /\ \A i \in DOMAIN Candidates(Net, plan) : IsRoute(Net, First(Candidates(Net, plan)[i]))
\* arithmetic of the regression
Logs == /\ \A n \in {1, 2, 3, 7, 10, 100, 1000, 12345, 1000000} : \A m \in {2, 5, 9, 100} : Near(Ln(n * m), Ln(n) + Ln(m), 6)
        /\ Near(Ln(10), Ln10, 4) /\ Ln(1) = 0
Cube == {<<1, 0, 2>>, <<0, 1, 1>>, <<2, -1, 0>>, <<1, 1, 1>>}
Inverse == \A a, b, c \in Cube : LET M == Gram(<<a, b, c>>) A == Adj(M) IN
    \A i, j \in 1..3 : SumSeq([k \in 1..3 |-> M[i][k] * A[k][j]]) = (IF i = j THEN Det(M) ELSE 0)
ASSUME Logs /\ Inverse
=============================================================================
