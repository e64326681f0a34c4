--------------------------------- MODULE Trig ---------------------------------
(* Fixed-point trigonometry: angles in microradians, results in 1e-6. *)
EXTENDS Arith
\* a * b / 10^6 within 2 units (|a| < 2^31, |b| up to 10^8 as long as |a| |b| < 2 * 10^15)
Mul6(a, b) == LET a1 == a \div 1000  a0 == a % 1000  b1 == b \div 1000  b0 == b % 1000
              IN a1 * b1 + (a1 * b0 + a0 * b1) \div 1000
Pi == 3141593
Turn == 6283185                      \* 2 pi = 6283185.307
\* an angle in ]-pi, pi]
Wrap(x) == LET k == (x + Pi) \div Turn IN x - k * Turn - (k * 307) \div 1000
SinCore(x) ==                        \* |x| <= pi / 2
    LET q == Mul6(x, x)
        h(n, t) == 1000000 - Mul6(q \div n, t)
    IN Mul6(x, h(6, h(20, h(42, h(72, h(110, 1000000))))))
Sin(x) == LET w == Wrap(x) IN
    IF w > 1570796 THEN SinCore(Pi - w) ELSE IF w < -1570796 THEN SinCore(-Pi - w) ELSE SinCore(w)
Cos(x) == Sin(x + 1570796)
=============================================================================
