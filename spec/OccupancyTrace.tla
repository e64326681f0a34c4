---------------------------- MODULE OccupancyTrace ----------------------------
(* Layers of recorded occupancy grids (1e-6). *)
EXTENDS Occupancy, Verdict
VARIABLES l, st, bad, seen
Judge(s, e) ==
    LET n == Cells(e.g)
        doubt == \E i \in DOMAIN e.vs : Doubtful(e.vs, e.me, e.g, i)
        show == [r \in 0..(n[1] - 1) |-> [c \in 0..(n[2] - 1) |-> Shown(e.vs, e.me, e.g, r, c)]]
        occ == {<<r, c>> \in (0..(n[1] - 1)) \X (0..(n[2] - 1)) : show[r][c] # 0}
        shaped == Len(e.obs) = Len(e.g.features) /\ \A k \in DOMAIN e.obs :
                     Len(e.obs[k]) = n[1] /\ \A r \in DOMAIN e.obs[k] : Len(e.obs[k][r]) = n[2]
    IN C("grid_shape", shaped)
       \o When(shaped /\ ~doubt,
            C("empty_cells", \A k \in DOMAIN e.obs : \A r \in 0..(n[1] - 1), c \in 0..(n[2] - 1) :
                                 show[r][c] = 0 => e.obs[k][r + 1][c + 1] = 0)
            \o All([k \in DOMAIN e.obs |-> k], LAMBDA k :
                 LET f == e.g.features[k] IN
                 C("layer_" \o f, \A p \in occ :
                     Near(e.obs[k][p[1] + 1][p[2] + 1], Value(e.vs, e.me, show[p[1]][p[2]], f, e.g.range),
                          ValueTol(f, e.g.range)))))
       \o When(doubt, C("skipped", TRUE))
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
