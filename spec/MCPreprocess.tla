----------------------------- MODULE MCPreprocess -----------------------------
(* The relations are functional where they should be, over small sets of vehicles, and compose as expected. *)
EXTENDS Preprocess
VARIABLES o, r
V(ego, ctrl, near, route, idm) == [ego |-> ego, ctrl |-> ctrl, idm |-> idm, plain |-> FALSE, cls |-> IF idm THEN "D" ELSE "E", near |-> near, body |-> near,
    aim |-> 1, route |-> route, lane |-> <<"a", "b">>, brk |-> 2000, field |-> "x", params |-> << >>, par_lo |-> << >>, par_hi |-> << >>, rest |-> "r"]
Ego == V(TRUE, 1, 0, << >>, FALSE)
Others == {V(FALSE, c, n, rt, c = 0) : c \in {0, 2}, n \in {5, 179000, 180000, 250000}, rt \in {<< >>, << <<"a", "b", 0>>, <<"b", "c", 0>> >>}}
Init == o \in {<<Ego>> \o s : s \in UNION {[1..k -> Others] : k \in 0..2}} /\ r = [done |-> FALSE]
Next == ~r.done /\ r' = [done |-> TRUE, simplify |-> Keep(o, Stays), lane |-> [i \in DOMAIN o |-> IF o[i].idm THEN [o[i] EXCEPT !.route = Lanes(o[i], 2), !.brk = 1000000]
                                                                  ELSE o[i]]] /\ UNCHANGED o
Spec == Init /\ [][Next]_<<o, r>>
Done == r.done
ControlledStay == Done => \A i \in DOMAIN o : o[i].ctrl > 0 => Count(r.simplify, o[i]) = Count(o, o[i])
SimplifyIdempotent == Done => Simplified(r.simplify, Keep(r.simplify, Stays)) /\ Simplified(o, r.simplify)
LaneSet == Done => Preferred(o, r.lane, 2) /\ Preferred(r.lane, r.lane, 2) /\ (\A i \in DOMAIN o : r.lane[i].idm => r.lane[i].route # << >>)
=============================================================================
