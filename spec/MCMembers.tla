------------------------------ MODULE MCMembers ------------------------------
(* Boxes of states and parameters, and drivers within them: the bounds after a frame hold all of them, and are attained when all is certain. *)
EXTENDS Members
CONSTANT N
VARIABLES b, d, l, m
Pair(q) == {<<q[1], q[2]>>, <<q[1], q[1]>>}
Lanes == {[x |-> 0, y |-> 0, c |-> 1000000, s |-> 0, h |-> 0], [x |-> 500, y |-> -700, c |-> -600000, s |-> 800000, h |-> 2214297]}
Drivers == {[target |-> t, gap |-> 10000, time |-> 2500, most |-> 6000, acc |-> <<a, a, <<10000, 30000>> >>, steer |-> <<k, <<68000, 98000>> >>] :
            t \in {10000, 25000}, a \in {<<1500, 4500>>, <<3000, 3000>>}, k \in {<<20000, 50000>>}}
Boxes(h) == {[x |-> x, y |-> <<-500, 1000>>, v |-> v, h |-> <<h - e, h + e>>, ahead |-> f # << >>, front |-> IF f = << >> THEN [x |-> <<0, 0>>, y |-> <<0, 0>>, v |-> <<0, 0>>] ELSE f[1]] :
            x \in {<<-1000, 2000>>}, v \in Pair(<<8000, 12000>>) \cup {<<20000, 21000>>}, e \in {0, 200000},
            f \in {<< >>, <<[x |-> <<30000, 33000>>, y |-> <<20000, 21000>>, v |-> <<5000, 9000>>]>>, <<[x |-> <<-20000, -20000>>, y |-> <<30000, 30000>>, v |-> <<15000, 15000>>]>>}}
Some(q) == {q[1], q[2]}
Mid(q) == {q[1], q[2], (q[1] + q[2]) \div 2}
Members1(d1, b1) == {[x |-> x, y |-> y, v |-> v, h |-> h, ahead |-> b1.ahead, front |-> [x |-> fx, y |-> b1.front.y[1], v |-> fv], acc |-> <<a1, a2, a3>>, steer |-> <<k1, k2>>] :
    x \in Some(b1.x), y \in Some(b1.y), v \in Mid(b1.v), h \in Some(b1.h), fx \in Some(b1.front.x), fv \in Some(b1.front.v),
    a1 \in Some(d1.acc[1]), a2 \in {d1.acc[2][1]}, a3 \in Some(d1.acc[3]), k1 \in Some(d1.steer[1]), k2 \in Some(d1.steer[2])}
Init == l \in Lanes /\ d \in Drivers /\ b \in Boxes(l.h + 100000) \cup Boxes(l.h - 300000) /\ m = << >>
Next == m = << >> /\ m' \in Members1(d, b) /\ UNCHANGED <<b, d, l>>
Spec == Init /\ [][Next]_<<b, d, l, m>>
Contains == m # << >> => LET q == Box1(d, l, b, N)  z == Next1(d, l, m, N)
            IN In(z.x, q.x, 3) /\ In(z.y, q.y, 3) /\ In(z.v, q.v, 3) /\ In(z.h, q.h, 12)
\* of certain states and parameters the bounds are the driver's, but for the noise
Certain == m # << >> => LET q == Box1(d, l, b, N)  z == Next1(d, l, m, N) IN
    (b.v[1] = b.v[2] /\ d.acc[1][1] = d.acc[1][2] /\ ~b.ahead) => Same(q.v, <<z.v, z.v>>, 3)
\* bounds stay in order
Ordered == m = << >> => LET q == Box1(d, l, b, N) IN q.x[1] <= q.x[2] /\ q.y[1] <= q.y[2] /\ q.v[1] <= q.v[2] /\ q.h[1] <= q.h[2]
=============================================================================
