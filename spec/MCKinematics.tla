----------------------------- MODULE MCKinematics -----------------------------
(* Small scenes: what Seen selects is what the documentation promises. *)
EXTENDS Kinematics
D == {-20, -9, -1, 3, 5, 200}
VARIABLES vs, n, behind
Init == /\ vs \in [1..4 -> {[ld |-> x * Metre, d |-> Abs(x) * Metre] : x \in D}]
        /\ n \in 0..4 /\ behind \in BOOLEAN
Next == UNCHANGED <<vs, n, behind>>
Spec == Init /\ [][Next]_<<vs, n, behind>>
S == Seen(vs, 1, behind, n)
Good == /\ Len(S) <= n /\ Cardinality(Range(S)) = Len(S) /\ 1 \notin Range(S)
        /\ \A i \in Range(S) : vs[i].d < 180 * Metre /\ (vs[i].ld > -10 * Metre \/ behind)
        /\ \A k \in 1..(Len(S) - 1) : Abs(vs[S[k]].ld) <= Abs(vs[S[k + 1]].ld)
        \* nobody left out is closer than somebody shown, and room is left only when everybody is shown
        /\ \A i \in Eligible(vs, 1, behind) \ Range(S) :
              Len(S) = n /\ \A k \in Range(S) : Abs(vs[k].ld) <= Abs(vs[i].ld)
UnitRange == \A v \in {-60 * Metre, -31 * Metre, 0, 7, 60 * Metre} :
                LET u == ToUnit(v, -60 * Metre, 60 * Metre) IN
                /\ u \in -1000000..1000000 /\ (v = 0 => u = 0) /\ (v = 60 * Metre => u = 1000000)
                /\ ToUnit(-v, -60 * Metre, 60 * Metre) \in (-u - 1)..(-u + 1)
=============================================================================
