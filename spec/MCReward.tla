------------------------------ MODULE MCReward ------------------------------
(***************************************************************************)
(* Design model: over all small reward facts, the documented compositions  *)
(* stay in their advertised ranges, and are ordered as intended: crashing  *)
(* never pays, going faster never costs, nor does driving on the right.    *)
(***************************************************************************)
EXTENDS Reward
VARIABLE k
Cs == {[cr |-> cr, rlo |-> 20000, rhi |-> rhi, lanes |-> 4, norm |-> n] : cr \in {-5000, -1000, -250, 0}, rhi \in {25000, 30000}, n \in BOOLEAN}
Rs == [speed : {0, 20000, 23500, 30000, 40000}, tlane : 0..3, nlanes : {4}]
Fs == [crashed : {<<TRUE>>, <<FALSE>>}, x : {0}, y : {0, 2500, 20000}]
Init == k \in Cs \X Rs \X Fs \X {"one"}
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
c == k[1]  r == k[2]  f == k[3]
R == Highway(c, r, f)
InRange == R >= -20 /\ R <= One + 20
CrashCosts == \A g \in {[f EXCEPT !.crashed = <<TRUE>>]} : Highway(c, r, g) <= R
FasterPays == Highway(c, [r EXCEPT !.speed = @ + 1000], f) >= R
RightPays == r.tlane < 3 => Highway(c, [r EXCEPT !.tlane = @ + 1], f) >= R
\* the same for the roundabout, the two-way road and the intersection
S3 == 0..2
RoundRange == \A s \in S3, a \in -1..4 : LET x == Roundabout([sidx |-> <<s>>, scount |-> <<3>>], f, a) IN x >= -20 /\ x <= One + 20
\* the opposite road, which follows its end, has a single lane
TwoRange == \A s \in S3, n \in 1..2 : \A t \in 0..n - 1 : LET x == TwoWay([sidx |-> <<s>>, scount |-> <<3>>, nlanes |-> n, tlane |-> t]) IN x >= 0 /\ x <= One
Places == {[from |-> "il0", to |-> "o0", p |-> <<2000, 36000>>], [from |-> "il0", to |-> "o0", p |-> <<2000, 35000>>],
           [from |-> "o0", to |-> "ir0", p |-> <<2000, 60000>>]}
CrossRange == \A p \in Places, q \in Places, s \in S3 :
    LET g == [crashed |-> <<f.crashed[1], FALSE>>, agents |-> <<p, q>>]
        rr == [sidx |-> <<s, 2>>, scount |-> <<3, 3>>]
        x == Intersection(c, rr, g)
    IN /\ x <= One + 20 /\ (c.norm /\ c.cr < 0 => x >= -20)
       /\ (c.cr <= 0 => x >= 1000 * Min(c.cr, 0) - 20)
GoalRange == \A dx \in {0, 10, 1400, 60000}, h \in 0..1 :
    LET g == [goal |-> <<<<dx, 0, 0, 0>>>>] IN GoalLow(g, h) <= GoalHigh(g, h) /\ GoalHigh(g, h) <= 2
=============================================================================
