------------------------------ MODULE MCPredictor ------------------------------
(* One step (1/K s) of predictors from any box, and of the system from any corner of this box (the system is affine), with any vertex of the deviations and any perturbation: the box of
   the predictor contains the state.  By induction, so it does for ever. *)
EXTENDS Intervals
CONSTANTS R, Deviations, Signs         \* Signs: also systems that are not Metzler
VARIABLES a0, da, box
K == 4
Set == {q \in (-R..R) \X (-R..R) : q[1] <= q[2]}
Off == IF Signs THEN {-1, 0, 1} ELSE {0, 1}
M2(p, q, r, s) == <<<<p, q>>, <<r, s>>>>
DA == {M2(0, 0, 0, 0), M2(1, 0, 0, -1), M2(-1, 1, 0, 0), M2(0, -1, -1, 1), M2(2, 0, 1, 0)}
Init == /\ a0 \in {M2(p, q, r, s) : p \in {-2, 0, 1}, q \in Off, r \in Off, s \in {-3, 0}}
        /\ da \in [1..Deviations -> DA]
        /\ box = << >>
Next == box = << >> /\ box' \in [1..2 -> Set] /\ UNCHANGED <<a0, da>>
Spec == Init /\ [][Next]_<<a0, da, box>>
Input == <<1, -2>>
Dw == <<<<-1, 1>>, <<0, 0>>>>
Inside == box # << >> => LET d == Bounds(a0, da, box, Input, Dw) IN
    \A x \in {box[1][1], box[1][2]} \X {box[2][1], box[2][2]}, v \in 0..Deviations, w \in {-1, 1} :
        LET dx == System(a0, da, v, x, Input, <<w, 0>>) IN
        \A i \in 1..2 : K * box[i][1] + d[i][1] <= K * x[i] + dx[i] /\ K * x[i] + dx[i] <= K * box[i][2] + d[i][2]
\* and nothing is lost when everything is known
Certain == box # << >> /\ (\A i \in 1..2 : box[i][1] = box[i][2]) /\ (\A v \in 1..Deviations : da[v] = M2(0, 0, 0, 0)) =>
    LET d == Bounds(a0, da, box, Input, <<<<0, 0>>, <<0, 0>>>>) IN \A i \in 1..2 : d[i][1] = d[i][2]
=============================================================================
