------------------------------ MODULE GenGraphs ------------------------------
(* Every directed graph on the nodes of Names, as lists of edges, for the real code. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils
N == IF IOEnv.NODES = "4" THEN 4 ELSE 3
Names == <<"a", "b", "c", "d">>
V == {Names[i] : i \in 1..N}
E == {<<x, y>> \in V \X V : x # y}
VARIABLE done
Init == done = FALSE
Next == ~done /\ JsonSerialize(IOEnv.OUT, SetToSeq({SetToSeq(g) : g \in SUBSET E})) /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
