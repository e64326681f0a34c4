------------------------------- MODULE FiniteMdp -------------------------------
(***************************************************************************)
(* The finite decision process on the cells <<speed, lane, time>> of a     *)
(* time-to-collision grid of the given shape (counts of speeds, lanes,     *)
(* times; all from 0).  Actions: 0 left, 1 idle, 2 right, 3 faster, 4      *)
(* slower.  Lanes can change at any time, speeds at the first one only.    *)
(***************************************************************************)
EXTENDS Arith
Cells(sh) == (0..sh[1] - 1) \X (0..sh[2] - 1) \X (0..sh[3] - 1)
Flat(sh, c) == (c[1] * sh[2] + c[2]) * sh[3] + c[3]
Cell(sh, n) == <<n \div (sh[2] * sh[3]), (n \div sh[3]) % sh[2], n % sh[3]>>
Size(sh) == sh[1] * sh[2] * sh[3]
Move(c, a) == <<IF c[3] # 0 THEN c[1] ELSE CASE a = 3 -> c[1] + 1 [] a = 4 -> c[1] - 1 [] OTHER -> c[1],
                CASE a = 0 -> c[2] - 1 [] a = 2 -> c[2] + 1 [] OTHER -> c[2], c[3] + 1>>
Inside(sh, c) == [i \in 1..3 |-> Clip(c[i], 0, sh[i] - 1)]
Successor(sh, c, a) == Inside(sh, Move(c, a))
\* a cell is terminal at the horizon, and where a collision is certain (danger 2, in halves)
Terminal(sh, c, danger) == c[3] = sh[3] - 1 \/ danger = 2
\* reward (1e-6) of being in a cell: collision reward (1e-3) times danger, right lanes, high speeds
CellReward(sh, c, danger, cr) == 500 * cr * danger + (100000 * c[2]) \div Max(sh[2] - 1, 1) + (400000 * c[1]) \div Max(sh[1] - 1, 1)
=============================================================================
