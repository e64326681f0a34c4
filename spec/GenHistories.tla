----------------------------- MODULE GenHistories -----------------------------
(* All schedules of N operations on up to three environments, after the first one was made, for the real code. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils
N == IF IOEnv.LEN = "5" THEN 5 ELSE IF IOEnv.LEN = "4" THEN 4 ELSE 3
RECURSIVE S(_, _)
S(k, alive) ==
    IF k = 0 THEN {<< >>} ELSE
    LET new == Cardinality(alive) + 1
        ops == {<<"step", i, 0, a>> : i \in alive, a \in 1..2} \cup {<<o, i, 0, 0>> : o \in {"reset", "reseed", "look"}, i \in alive}
        grow == IF new > 3 THEN {} ELSE {<<"make", new, 0, m>> : m \in 1..2} \cup {<<"copy", new, i, 0>> : i \in alive}
    IN UNION {{<<o>> \o r : r \in S(k - 1, alive)} : o \in ops} \cup UNION {{<<o>> \o r : r \in S(k - 1, alive \cup {new})} : o \in grow}
VARIABLE done
Init == done = FALSE
Next == ~done /\ JsonSerialize(IOEnv.OUT, SetToSeq(S(N, {1}))) /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
