------------------------------ MODULE Estimation ------------------------------
(***************************************************************************)
(* What is learnt from watching a driver.                                  *)
(*  - Its parameters: regularised least squares of outputs y on features   *)
(*    phi (lambda = 1e-5, noise variance 1/10), the confidence ellipsoid   *)
(*    and a polytope around it.  Data are small integers; Gram matrices    *)
(*    are exact, G = 10 M + lambda I.                                      *)
(*  - Its possible routes: those that it may take at the next              *)
(*    intersection, until its behaviour tells them apart.                  *)
(***************************************************************************)
EXTENDS Arith
\* ---- regression
Gram(F) == [i \in DOMAIN F[1] |-> [j \in DOMAIN F[1] |-> SumSeq([n \in DOMAIN F |-> F[n][i] * F[n][j]])]]
Moment(F, y) == [i \in DOMAIN F[1] |-> SumSeq([n \in DOMAIN F |-> F[n][i] * y[n]])]
Mat(M, x) == [i \in DOMAIN M |-> SumSeq([j \in DOMAIN x |-> M[i][j] * x[j]])]
Form(M, x) == SumSeq([i \in DOMAIN x |-> x[i] * Mat(M, x)[i]])
Weight(r) == SumSeq([j \in DOMAIN r |-> Abs(r[j])])
Det2(a, b, c, d) == a * d - b * c
Cof(M, i, j) == LET r == CASE i = 1 -> <<2, 3>> [] i = 2 -> <<1, 3>> [] OTHER -> <<1, 2>>
                    c == CASE j = 1 -> <<2, 3>> [] j = 2 -> <<1, 3>> [] OTHER -> <<1, 2>>
                    m == Det2(M[r[1]][c[1]], M[r[1]][c[2]], M[r[2]][c[1]], M[r[2]][c[2]])
                IN IF (i + j) % 2 = 0 THEN m ELSE -m
Det(M) == CASE Len(M) = 1 -> M[1][1]
            [] Len(M) = 2 -> Det2(M[1][1], M[1][2], M[2][1], M[2][2])
            [] OTHER -> SumSeq([j \in 1..3 |-> M[1][j] * Cof(M, 1, j)])
Adj(M) == IF Len(M) = 1 THEN << <<1>> >> ELSE IF Len(M) = 2 THEN << <<M[2][2], -M[1][2]>>, <<-M[2][1], M[1][1]>> >>
          ELSE [i \in 1..3 |-> [j \in 1..3 |-> Cof(M, j, i)]]
Trace(M) == SumSeq([i \in DOMAIN M |-> M[i][i]])
\* sum of the principal minors of order k: coefficients of det(10 M + lambda I)
Minors(M, k) == CASE k = 0 -> 1 [] k = Len(M) -> Det(M) [] k = 1 -> Trace(M) [] OTHER -> SumSeq([i \in 1..3 |-> Cof(M, i, i)])
Rank(M) == SetMax({k \in 0..Len(M) : Minors(M, k) # 0})
\* natural logarithm of an integer, in 1e-4: halvings, then squarings of a mantissa in 2^-14
RECURSIVE Halvings(_), Bits(_, _), Mantissa(_)
Halvings(n) == IF n < 32768 THEN 0 ELSE 1 + Halvings(n \div 2)
Mantissa(n) == IF n >= 32768 THEN Mantissa(n \div 2) ELSE IF n < 16384 THEN Mantissa(2 * n) ELSE n
Bits(x, k) == IF k = 0 THEN 0 ELSE LET q == (x * x) \div 16384 IN
              IF q >= 32768 THEN 2 ^ (k - 1) + Bits(q \div 2, k - 1) ELSE Bits(q, k - 1)
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
Ln(n) == ((Log2(n) * 6931472) \div 1000) + ((Bits(Mantissa(n), 12) * 6931) \div 4096)
Ln10 == 23026
\* squared radius, before the bias of the regularisation, in 1e-4: log(det(G) / lambda^d) + 2 log(1 / 0.1)
Radius2(M) == Ln(Minors(M, Rank(M))) + (6 * Rank(M) + 2) * Ln10
\* the regularisation moves the estimate by at most sqrt(lambda d) times the bound S of the parameters, in 1e-4
Bias(d, S) == (S * (CASE d = 1 -> 31623 [] d = 2 -> 44721 [] OTHER -> 54772)) \div 1000
\* smallest eigenvalue of M (2 x 2) below t / 100
Below(M, t) == 100 * Trace(M) < 2 * t
               \/ (100 * M[1][1] - t) * (100 * M[2][2] - t) - 10000 * M[1][2] * M[2][1] < 0

\* ---- routes: sequences of lanes <<from, to, id>>, id = -1 when any lane of the road would do
\* the network: << <<from, << <<to, lanes>>, ... >> >>, ... >>
Out(net, node) == IF \E i \in DOMAIN net : net[i][1] = node THEN net[CHOOSE i \in DOMAIN net : net[i][1] = node][2] ELSE << >>
LanesOf(net, a, b) == IF \E i \in DOMAIN Out(net, a) : Out(net, a)[i][1] = b THEN Out(net, a)[CHOOSE i \in DOMAIN Out(net, a) : Out(net, a)[i][1] = b][2] ELSE 0
IsRoute(net, r) == r # << >> /\ (\A i \in DOMAIN r : r[i][3] \in 0..(LanesOf(net, r[i][1], r[i][2]) - 1)) /\ \A i \in 1..(Len(r) - 1) : r[i][2] = r[i + 1][1]
\* those that may follow the planned route, up to the next intersection within three roads
Intersection(net, r) == {i \in 1..Min(3, Len(r)) : Len(Out(net, r[i][2])) >= 2}
Candidates(net, r) ==
    IF r = << >> THEN << >> ELSE IF Intersection(net, r) = {} THEN <<r>> ELSE
    LET i == SetMin(Intersection(net, r))  o == Out(net, r[i][2])
    IN [k \in DOMAIN o |-> Append(SubSeq(r, 1, i), <<r[i][2], o[k][1], IF r[i][3] = -1 THEN -1 ELSE Min(r[i][3], o[k][2] - 1)>>)]
First(r) == [i \in DOMAIN r |-> IF r[i][3] = -1 THEN <<r[i][1], r[i][2], 0>> ELSE r[i]]
IsPrefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* a candidate is already known, continues a known route, or is new
Add(H, r) == LET m == {i \in DOMAIN H : H[i] = r \/ IsPrefix(H[i], r)} IN
             IF m = {} THEN Append(H, r) ELSE LET i == SetMin(m) IN
             IF H[i] = r THEN H ELSE [k \in DOMAIN H |-> IF H[k] = H[i] THEN r ELSE H[k]]
RECURSIVE Learn(_, _)
Learn(H, c) == IF c = << >> THEN H ELSE Learn(Add(H, First(Head(c))), Tail(c))
\* lanes left behind are dropped, but for the last one
Advance(H, passed) == [k \in DOMAIN H |-> IF Len(H[k]) > 1 /\ H[k][1] \in passed THEN Tail(H[k]) ELSE H[k]]
RECURSIVE Keep(_, _)
Keep(H, ok) == IF H = << >> THEN << >> ELSE (IF Head(ok) THEN <<Head(H)>> ELSE << >>) \o Keep(Tail(H), Tail(ok))
\* the route that is followed agrees with one of the hypotheses, as far as both go
Agrees(h, r) == \A i \in 1..Min(Len(h), Len(r)) : h[i][1] = r[i][1] /\ h[i][2] = r[i][2]
=============================================================================
