-------------------------------- MODULE Control --------------------------------
(***************************************************************************)
(* Continuous control, and manual control by keys.  Units 1e-4.            *)
(* cfg = [lon, lat, clip, acc |-> <<lo, hi>>, steer |-> <<lo, hi>>]        *)
(***************************************************************************)
EXTENDS Arith
One == 10000
Map(a, r) == r[1] + MulDiv(r[2] - r[1], a + One, 2 * One)
Clipped(cfg, u) == [i \in DOMAIN u |-> IF cfg.clip THEN Clip(u[i], -One, One) ELSE u[i]]
Commands(cfg, u) == LET w == Clipped(cfg, u) IN
    [acceleration |-> IF cfg.lon THEN Map(w[1], cfg.acc) ELSE 0,
     steering |-> IF cfg.lat THEN Map(w[Len(w)], cfg.steer) ELSE 0]
\* ---- keys, on the last action u
Press(cfg, u, down, key) ==
    CASE key \in {"right", "left"} /\ cfg.lat ->
            [u EXCEPT ![Len(u)] = IF ~down THEN 0 ELSE IF key = "right" THEN 7000 ELSE -7000]
      [] key \in {"up", "down"} /\ cfg.lon ->
            [u EXCEPT ![1] = IF ~down THEN 0 ELSE IF key = "up" THEN 7000 ELSE -7000]
      [] OTHER -> u
\* ---- keys and meta-actions: what a key does ("" when nothing)
MetaKey(lon, lat, down, key) ==
    IF ~down THEN ""
    ELSE CASE key = "right" /\ lon -> "FASTER" [] key = "left" /\ lon -> "SLOWER"
           [] key = "down" /\ lat -> "LANE_RIGHT" [] key = "up" /\ lat -> "LANE_LEFT" [] OTHER -> ""
=============================================================================
