---------------------------- MODULE KinematicsTrace ----------------------------
(* Rows of recorded kinematics observations. *)
EXTENDS Kinematics, Verdict
VARIABLES l, st, bad, seen
RangeOf(e) == IF e.o.ranged THEN e.o.range ELSE DefaultRange(e.nlanes)
RowAgrees(e, row, i) ==
    \A c \in DOMAIN e.o.features :
        LET k == e.o.features[c]
        IN Agrees([o6 |-> row.o6[c], o4 |-> row.o4[c]],
                  Raw(e.vs, e.me, i, k, e.o.absolute, e.o.intentions), k, RangeOf(e), e.o.normalize, e.o.clip)
Zero(row) == \A c \in DOMAIN row.o6 : row.o6[c] = 0
\* a matching of rows with vehicles, when rows may come in any order
RECURSIVE Match(_, _, _)
Match(e, rows, want) ==
    IF rows = << >> THEN want = << >>
    ELSE LET r == Head(rows)
         IN \/ \E k \in DOMAIN want : /\ RowAgrees(e, r, want[k])
                                      /\ Match(e, Tail(rows), SubSeq(want, 1, k - 1) \o SubSeq(want, k + 1, Len(want)))
            \/ Zero(r) /\ Len(rows) > Len(want) /\ Match(e, Tail(rows), want)
Described(e) ==
    C("described_" \o (IF e.object THEN "object" ELSE "vehicle"),
      /\ e.got.presence = 1
      /\ \A k \in Lengths : Near(e.got[k], (IF e.object /\ k \in {"vx", "vy"} THEN 0 ELSE e.is[k]) - (IF e.relative THEN e.from[k] ELSE 0), 3)
      /\ \A k \in {"cos_h", "sin_h"} : Near(e.got[k], e.is[k], 2)
      /\ Near(e.got.cos_d, IF e.intent THEN e.towards[1] ELSE 0, 2) /\ Near(e.got.sin_d, IF e.intent THEN e.towards[2] ELSE 0, 2))
    \o When(e.relative, C("described_relative", TRUE))
    \o C("velocity", Near(e.moves[1], e.is.vx, 2) /\ Near(e.moves[2], e.is.vy, 2) /\ Near(e.moves[3], e.is.cos_h, 2) /\ Near(e.moves[4], e.is.sin_h, 2))
Judge(s, e) ==
    IF e.k = "dict" THEN (IF e.ok THEN Described(e) ELSE C("no_error", FALSE)) ELSE
    LET want == Seen(e.vs, e.me, e.o.behind, e.o.count - 1)
        rest == Tail(e.rows)
    IN C("shape", Len(e.rows) = e.o.count /\ \A i \in DOMAIN e.rows : Len(e.rows[i].o6) = Len(e.o.features))
       \o C("ego_row", RowAgrees(e, e.rows[1], e.me))
       \o When(~Ambiguous(e.vs, e.me, e.o.behind),
            IF e.o.order = "sorted"
            THEN When(want # << >>, C("rows", \A k \in DOMAIN want : RowAgrees(e, rest[k], want[k])))
                 \o When(Len(want) < Len(rest), C("padding", \A k \in (Len(want) + 1)..Len(rest) : Zero(rest[k])))
            ELSE C("shuffled_rows", Match(e, rest, want)))
       \o When(Ambiguous(e.vs, e.me, e.o.behind), C("skipped", TRUE))
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
