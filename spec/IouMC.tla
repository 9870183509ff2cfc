------------------------------- MODULE IouMC -------------------------------
(* All pairs of small boxes: laws of the overlap and agreement of boxes with their pixels (C09). *)
EXTENDS Det
CONSTANT Size
VARIABLES a, b
Boxes == {<<x0, x1, y0, y1>> \in (0..Size) \X (0..Size) \X (0..Size) \X (0..Size) : x0 < x1 /\ y0 < y1}
Init == a \in Boxes /\ b \in Boxes
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Pixels(x) == SetToSeq({x1 + 100 * y1 : x1 \in x[1]..(x[2] - 1), y1 \in x[3]..(x[4] - 1)})
Move(x, dx, dy) == <<x[1] + dx, x[2] + dx, x[3] + dy, x[4] + dy>>
Scale(x, k) == <<x[1] * k, x[2] * k, x[3] * k, x[4] * k>>
Laws == LET i == BoxIou(a, b) IN
  /\ i = BoxIou(b, a)
  /\ RLeq(Zero, i) /\ RLeq(i, One)
  /\ (i = One) = (a = b)
  /\ (i = Zero) = (a[2] <= b[1] \/ b[2] <= a[1] \/ a[4] <= b[3] \/ b[4] <= a[3])
  /\ i = BoxIou(Move(a, 5, -3), Move(b, 5, -3))
  /\ i = BoxIou(Scale(a, 3), Scale(b, 3))
  /\ i = CellIou(Pixels(a), Pixels(b))
=============================================================================
