------------------------------- MODULE Verdict -------------------------------
(***************************************************************************)
(* Shared skeleton of the trace specifications.                            *)
(*                                                                         *)
(* A trace is a sequence of JSON objects recorded from the real code.  A   *)
(* trace specification supplies                                            *)
(*     Start          the initial specification state,                     *)
(*     Judge(st, e)   a sequence of <<clause, holds>> pairs: the clauses    *)
(*                    of the specification that event e must satisfy in    *)
(*                    specification state st,                              *)
(*     Follow(st, e)  the next specification state, resynchronised on what *)
(*                    the event logged.                                    *)
(* The verdict is total: every event is consumed, every failed clause is   *)
(* reported with the line it failed on, and the number of times each       *)
(* clause was really judged is counted so that vacuous runs are refused.   *)
(***************************************************************************)
EXTENDS Arith, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* ---- building judgements
C(name, ok) == << <<name, ok>> >>
When(cond, j) == IF cond THEN j ELSE << >>
RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Cat(Tail(s))
All(S, j(_)) ==          \* judgements j(x) for every x of a sequence
    LET RECURSIVE F(_)
        F(i) == IF i > Len(S) THEN << >> ELSE j(S[i]) \o F(i + 1)
    IN F(1)

Failed(j, ln) == LET F == SelectSeq(j, LAMBDA x : ~x[2])
                 IN  [i \in 1..Len(F) |-> <<ln, F[i][1]>>]
Tally(seen, j) ==
    LET names == {j[i][1] : i \in 1..Len(j)}
    IN [c \in DOMAIN seen \cup names |->
          (IF c \in DOMAIN seen THEN seen[c] ELSE 0)
          + Cardinality({i \in 1..Len(j) : j[i][1] = c})]
Cap(s) == IF Len(s) > 300 THEN SubSeq(s, 1, 300) ELSE s
NoTally == [c \in {} |-> 0]
=============================================================================
