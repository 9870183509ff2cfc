------------------------------- MODULE RocMC -------------------------------
(***************************************************************************)
(* ROC AUC as computed: all predictions of a label in descending score     *)
(* order arrive in files; whenever the score changes, the running (fp, tp) *)
(* is emitted as a curve point; a last point closes the curve; the points  *)
(* again arrive in files and the area is summed by trapezoids, carrying    *)
(* the previous point over.  Shown equal to the Mann-Whitney statistic.    *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, FiniteSetsExt
CONSTANTS NRows, Scores
VARIABLES rows,      \* remaining rows [s, m], sorted by score descending, non-matches first among equals
          all,       \* all rows
          fp, tp,    \* running counts
          last,      \* last score seen (0 initially)
          pts,       \* emitted curve points
          phase, prev, area, chunk
vars == <<rows, all, fp, tp, last, pts, phase, prev, area, chunk>>
Less(a, b) == a.s > b.s \/ (a.s = b.s /\ ~a.m /\ b.m)
RECURSIVE Ins(_, _)
Ins(x, q) == IF q = <<>> THEN <<x>> ELSE IF Less(q[1], x) THEN <<q[1]>> \o Ins(x, Tail(q)) ELSE <<x>> \o q
Sorted(q) == FoldLeft(LAMBDA a, x : Ins(x, a), <<>>, q)
Init == /\ \E q \in [1..NRows -> [s : Scores, m : BOOLEAN]] : all = Sorted(q) /\ rows = Sorted(q)
        /\ fp = 0 /\ tp = 0 /\ last = 0 /\ pts = <<>> /\ phase = "scan" /\ prev = <<0, 0>> /\ area = 0 /\ chunk = <<>>
Scan == /\ phase = "scan" /\ rows # <<>>
        /\ LET r == rows[1] IN
           /\ pts' = IF r.s # last /\ fp + tp > 0 THEN Append(pts, <<fp, tp>>) ELSE pts
           /\ last' = r.s
           /\ IF r.m THEN tp' = tp + 1 /\ UNCHANGED fp ELSE fp' = fp + 1 /\ UNCHANGED tp
        /\ rows' = Tail(rows) /\ UNCHANGED <<all, phase, prev, area, chunk>>
CloseCurve == /\ phase = "scan" /\ rows = <<>>
              /\ pts' = IF pts = <<>> \/ pts[Len(pts)] # <<fp, tp>> THEN Append(pts, <<fp, tp>>) ELSE pts
              /\ phase' = "sum" /\ UNCHANGED <<rows, all, fp, tp, last, prev, area, chunk>>
(* take any number of points as the next file *)
Take == /\ phase = "sum" /\ chunk = <<>> /\ pts # <<>>
        /\ \E k \in 1..Len(pts) : chunk' = SubSeq(pts, 1, k) /\ pts' = SubSeq(pts, k + 1, Len(pts))
        /\ UNCHANGED <<rows, all, fp, tp, last, phase, prev, area>>
Trapezoids(q) == FoldLeft(LAMBDA a, i : a + (q[i + 1][1] - q[i][1]) * (q[i + 1][2] + q[i][2]), 0, [i \in 1..(Len(q) - 1) |-> i])
Sum == /\ phase = "sum" /\ chunk # <<>>
       /\ area' = area + Trapezoids(<<prev>> \o chunk)
       /\ prev' = chunk[Len(chunk)] /\ chunk' = <<>>
       /\ UNCHANGED <<rows, all, fp, tp, last, pts, phase>>
Next == Scan \/ CloseCurve \/ Take \/ Sum
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == phase = "sum" /\ pts = <<>> /\ chunk = <<>>
P == {i \in 1..NRows : all[i].m}
Q == {i \in 1..NRows : ~all[i].m}
Wins(x, y) == IF x > y THEN 2 ELSE IF x = y THEN 1 ELSE 0
MW == FoldSet(LAMBDA q, a : a + Wins(all[q[1]].s, all[q[2]].s), 0, P \X Q)
AreaCorrect == Done => area = MW
Bounded == area <= 2 * Cardinality(P) * Cardinality(Q)
Finishes == <>Done
=============================================================================
