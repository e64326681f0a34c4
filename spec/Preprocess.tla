------------------------------- MODULE Preprocess -------------------------------
(***************************************************************************)
(* Derived environments: the vehicles of the result against the original.  *)
(* A vehicle: [ego, ctrl (number among controlled vehicles, 0 if none),    *)
(* idm (a simulated driver), plain (without targets), cls, near (mm to the ego), body (place and    *)
(* motion), aim (target lane and speed), route, lane, timer, brk (imposed   *)
(* braking, 1e-3)            , field, params, par_lo, par_hi, rest]        *)
(***************************************************************************)
EXTENDS Arith
Perception == 180000
\* how often a vehicle occurs
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
Keep(s, P(_)) == SelectSeq(s, P)
Stays(v) == v.ctrl > 0 \/ v.near < Perception
Unsure(s) == \E i \in DOMAIN s : Near(s[i].near, Perception, 2)
Simplified(o, r) == SameBag(Keep(o, Stays), r)
Pointwise(o, r, P(_, _)) == Len(o) = Len(r) /\ \A i \in DOMAIN o : P(o[i], r[i])
\* the class changes, the place, the motion, the aims and the timer do not
Changed(o, r, cls) == Pointwise(o, r, LAMBDA v, w : IF v.ctrl > 0 THEN w = v
    ELSE w.cls = cls /\ w.body = v.body /\ w.ctrl = 0
         \* a plain vehicle has no aim to keep
         /\ (v.plain \/ (w.aim = v.aim /\ w.route = v.route))
         \* 0: just reset, or given, starts over
         /\ (v.timer > 0 /\ w.timer >= 0 => w.timer = v.timer))
Lanes(v, k) == [i \in 1..Max(1, Len(v.route)) |->
                  IF v.route = << >> THEN <<v.lane[1], v.lane[2], k>> ELSE <<v.route[i][1], v.route[i][2], k>>]
Preferred(o, r, k) == Pointwise(o, r, LAMBDA v, w :
    IF v.idm THEN w = [v EXCEPT !.route = Lanes(v, k), !.brk = 1000000] ELSE w = v)
Routed(o, r, alts) == Len(o) = Len(r) /\ \A i \in DOMAIN o :
    IF o[i].idm THEN r[i] = [o[i] EXCEPT !.route = r[i].route] /\ r[i].route \in Range(alts[i]) ELSE r[i] = o[i]
\* everyone plans a route, by a method that returns the vehicle
Called(o, r, alts) == Len(o) = Len(r) /\ \A i \in DOMAIN o : r[i] = [o[i] EXCEPT !.route = alts[i][1]]
FieldSet(o, r, value) == Pointwise(o, r, LAMBDA v, w : IF v.ego THEN w = v ELSE w.field = value /\ w.rest = v.rest)
Randomised(o, r) == Pointwise(o, r, LAMBDA v, w :
    IF v.params = << >> \/ ~v.idm THEN w = v
    ELSE w = [v EXCEPT !.params = w.params] /\ Len(w.params) = Len(v.par_lo) /\ w.params # v.params
         /\ \A i \in DOMAIN w.params : v.par_lo[i] - 2 <= w.params[i] /\ w.params[i] <= v.par_hi[i] + 2)
=============================================================================
