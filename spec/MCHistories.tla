------------------------------ MODULE MCHistories ------------------------------
(***************************************************************************)
(* A small world of environments, each with a scene and a random generator *)
(* of its own: two environments with the same history are in the same      *)
(* state, although a reset after seeding forgets the past.                 *)
(***************************************************************************)
EXTENDS Histories
CONSTANTS Depth
VARIABLES st, impl, n
Ids == {1, 2}
Roots == {"a", "b"}
Draw(r) == (3 * r + 1) % 5
Fresh(root, seed) == [size |-> IF root = "a" THEN 2 ELSE 3, scene |-> (seed + (IF root = "a" THEN 2 ELSE 3)) % 7, rng |-> Draw(seed), done |-> FALSE]
Num(s) == IF s = "s1" THEN 1 ELSE 2
Ev(k, i, f, o, r) == [kind |-> k, id |-> i, from |-> f, op |-> o, root |-> r]
Do(e, x) == st' = Apply(st, e) /\ impl' = x /\ n' = n + 1
Init == st = Empty /\ impl = << >> /\ n = 0
Next == n < Depth /\ \E i \in Ids :
    \/ \E r \in Roots, s \in {"s1", "s2"} : Do(Ev("make", i, 0, s, r), With(impl, i, Fresh(r, Num(s))))
    \/ i \in DOMAIN impl /\
        \/ \E s \in {"s1", "s2"} : Do(Ev("seed", i, 0, s, ""), [impl EXCEPT ![i].rng = Num(s)])
        \/ Do(Ev("reset", i, 0, "reset", ""),
              [impl EXCEPT ![i].scene = (impl[i].rng + impl[i].size) % 7, ![i].rng = Draw(impl[i].rng),
                          ![i].done = FALSE])
        \/ Do(Ev("configure", i, 0, "c", ""), [impl EXCEPT ![i].size = (@ * 3) % 11])
        \/ Do(Ev("close", i, 0, "close", ""), [impl EXCEPT ![i].done = TRUE])
        \/ \E a \in 1..2 : Do(Ev("step", i, 0, ToString(a), ""),
              [impl EXCEPT ![i].scene = (2 * @ + a + impl[i].rng) % 7, ![i].rng = Draw(@)])
        \/ \E j \in Ids \ {i} : Do(Ev("copy", j, i, "", ""), With(impl, j, impl[i]))
        \/ \E j \in Ids \ {i} : Do(Ev("derive", j, i, "d", ""), With(impl, j, [impl[i] EXCEPT !.scene = (@ + 3) % 7]))
Spec == Init /\ [][Next]_<<st, impl, n>>
SameHistorySameState == \A i, j \in DOMAIN impl : st.env[i].term = st.env[j].term => impl[i] = impl[j]
TermsAreInjective == \A x, y \in DOMAIN st.next : st.next[x] = st.next[y] => x = y
=============================================================================
