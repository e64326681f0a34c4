-------------------------- MODULE MCTimeToCollision --------------------------
(* The tolerance of Columns is sound: what is certain happens, what happens is possible, whatever the noise. *)
EXTENDS TimeToCollision
H == 10
VARIABLES d, v, ed, ev, pf
Init == /\ d \in {-9000, -31, -2, 0, 1, 5, 4999, 5000, 20001, 49999, 50000, 99990}
        /\ v \in {-30000, -5001, -700, -17, 17, 1000, 5000, 9999, 40000}
        /\ ed \in {-2, 0, 1, 2} /\ ev \in {-1, 0, 1} /\ pf \in {1, 2, 5}
Next == UNCHANGED <<d, v, ed, ev, pf>>
Spec == Init /\ [][Next]_<<d, v, ed, ev, pf>>
Sound == LET x == Exact(d + ed, v + ev, pf) \cap 0..(H - 1)  c == Columns(d, v, pf, H)
         IN x \subseteq c.may /\ (c.must # {} => c.must \subseteq x \cup {t + 1 : t \in x})
Sharp == \A t \in Exact(d, v, pf) : Columns(d, v, pf, H).may \subseteq {0} \cup ((t - Abs(t) \div 4 - 2)..(t + Abs(t) \div 4 + 2))
=============================================================================
