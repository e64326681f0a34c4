-------------------------------- MODULE Arith --------------------------------
EXTENDS Integers, Sequences, FiniteSets
\* ---- arithmetic on fixed-point integers
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Clip(x, lo, hi) == Min(Max(x, lo), hi)
Near(a, b, tol) == Abs(a - b) <= tol
\* a * b / k rounded towards minus infinity, without overflowing when a is large (needs b * k < 2^31)
MulDiv(a, b, k) == (a \div k) * b + (((a % k) * b) \div k)
\* floor(10^n * a / k), digit by digit (needs 10 * k < 2^31)
RECURSIVE Digits(_, _, _), Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Digits(r, k, n) == IF n = 0 THEN 0 ELSE ((r * 10) \div k) * Pow10(n - 1) + Digits((r * 10) % k, k, n - 1)
Scaled(a, k, n) == (a \div k) * Pow10(n) + Digits(a % k, k, n)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Range(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
