-------------------------------- MODULE Det --------------------------------
(***************************************************************************)
(* Object detection.  An evaluator is [labels, ds]; a datum is             *)
(* [u, m, gts, pds, iou, M]: ground truths [a, l, m], predictions          *)
(* [a, m, ls] with label entries [l, s], the overlap iou[<<pa, ga>>] as an *)
(* exact rational, and the one-to-one matching M of the confusion matrix.  *)
(* Annotation tokens `a` are unique within a datum.                        *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, FiniteSetsExt, TLC
Missing == -1000
N(S) == Cardinality(S)
SumOver(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

-----------------------------------------------------------------------------
(* Geometry (C09): a box is <<xmin, xmax, ymin, ymax>>; other shapes are sequences of cells of equal area *)
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
BoxArea(b) == (b[2] - b[1]) * (b[4] - b[3])
BoxInter(a, b) == MaxI(0, MinI(a[2], b[2]) - MaxI(a[1], b[1])) * MaxI(0, MinI(a[4], b[4]) - MaxI(a[3], b[3]))
BoxIou(a, b) == LET i == BoxInter(a, b) IN Ratio(i, BoxArea(a) + BoxArea(b) - i)
CellIou(a, b) == Ratio(N(ToSet(a) \cap ToSet(b)), N(ToSet(a) \cup ToSet(b)))
Iou(kind, a, b) == IF kind = "box" THEN BoxIou(a, b) ELSE CellIou(a, b)

-----------------------------------------------------------------------------
(* The one-to-one matching (C12): greedily by descending (score, overlap), regardless of labels *)
RowsOf(d) == {<<pi, ei, gi>> \in (1..Len(d.pds)) \X (1..10) \X (1..Len(d.gts)) :
                 ei <= Len(d.pds[pi].ls) /\ RLess(Zero, d.iou[<<d.pds[pi].a, d.gts[gi].a>>])}
RS(d, r) == d.pds[r[1]].ls[r[2]].s
RI(d, r) == d.iou[<<d.pds[r[1]].a, d.gts[r[3]].a>>]
RowBefore(d, q, r) == RS(d, q) > RS(d, r) \/ (RS(d, q) = RS(d, r) /\ RLess(RI(d, r), RI(d, q)))
RECURSIVE Greedy(_, _)
Greedy(d, R) == IF R = {} THEN {} ELSE
  LET r == CHOOSE x \in R : \A y \in R : ~RowBefore(d, y, x)
  IN {<<d.gts[r[3]].a, d.pds[r[1]].a>>} \cup Greedy(d, {x \in R : x[1] # r[1] /\ x[3] # r[3]})
WithM(d) == [u |-> d.u, m |-> d.m, gts |-> d.gts, pds |-> d.pds, iou |-> d.iou, M |-> Greedy(d, RowsOf(d))]

-----------------------------------------------------------------------------
(* Building *)
Datum(d, kind) ==
  WithM([u |-> d.u, m |-> d.m,
         gts |-> [i \in 1..Len(d.gts) |-> [a |-> d.gts[i].a, l |-> d.gts[i].l, m |-> d.gts[i].m]],
         pds |-> [i \in 1..Len(d.pds) |-> [a |-> d.pds[i].a, m |-> d.pds[i].m, ls |-> d.pds[i].ls]],
         iou |-> [q \in {<<d.pds[i].a, d.gts[j].a>> : i \in 1..Len(d.pds), j \in 1..Len(d.gts)} |->
                    LET i == CHOOSE i \in 1..Len(d.pds) : d.pds[i].a = q[1]
                        j == CHOOSE j \in 1..Len(d.gts) : d.gts[j].a = q[2]
                    IN Iou(kind, d.pds[i].g, d.gts[j].g)]])
LabelsOf(ds) == UNION {{ds[i].gts[j].l : j \in 1..Len(ds[i].gts)}
                       \cup UNION {{ds[i].pds[j].ls[k].l : k \in 1..Len(ds[i].pds[j].ls)} : j \in 1..Len(ds[i].pds)} : i \in 1..Len(ds)}
(* a datum without annotations leaves no trace *)
NonEmpty(ds) == SelectSeq(ds, LAMBDA d : d.gts # <<>> \/ d.pds # <<>>)
Build(raw, kind) == LET ds == [i \in 1..Len(raw) |-> Datum(raw[i], kind)] IN [labels |-> LabelsOf(ds), ds |-> NonEmpty(ds)]

-----------------------------------------------------------------------------
(* Filters (C15) *)
AtomOn(a, v) == CASE a.k = "m" -> v # Missing /\ ((v >= a.n) # (a.neg = 1))
                  [] a.k = "s" -> (v >= a.n) # (a.neg = 1)
                  [] OTHER -> (v \in ToSet(a.set)) # (a.neg = 1)
AllAtoms(f, val(_)) == \A i \in 1..Len(f) : AtomOn(f[i], val(f[i].k))
DatumOk(d, f) == AllAtoms(f, LAMBDA k : IF k = "m" THEN d.m ELSE d.u)
GtOk(g, f) == AllAtoms(f, LAMBDA k : CASE k = "m" -> g.m [] k = "a" -> g.a [] OTHER -> g.l)
PdOk(p, x, f) == AllAtoms(f, LAMBDA k : CASE k = "m" -> p.m [] k = "a" -> p.a [] k = "s" -> x.s [] OTHER -> x.l)
CutPd(p, f) == [p EXCEPT !.ls = SelectSeq(@, LAMBDA x : PdOk(p, x, f))]
CutDatum(d, f) == [d EXCEPT !.gts = SelectSeq(@, LAMBDA g : GtOk(g, f.g)),
                            !.pds = SelectSeq([i \in 1..Len(@) |-> CutPd(@[i], f.p)], LAMBDA p : p.ls # <<>>)]
Filter(e, f) == LET kept == SelectSeq(e.ds, LAMBDA d : DatumOk(d, f.d))
                IN [e EXCEPT !.ds = NonEmpty([i \in 1..Len(kept) |-> WithM(CutDatum(kept[i], f))])]
OnDatums(e, f) == [e EXCEPT !.ds = SelectSeq(@, LAMBDA d : DatumOk(d, f))]

-----------------------------------------------------------------------------
(* Counts (C10) *)
Idx(e) == 1..Len(e.ds)
OvGts(d, p, l) == {j \in 1..Len(d.gts) : d.gts[j].l = l /\ RLess(Zero, d.iou[<<p.a, d.gts[j].a>>])}
HasCorrect(d, p) == \E k \in 1..Len(p.ls) : OvGts(d, p, p.ls[k].l) # {}
Best(d, p, l) == CHOOSE j \in OvGts(d, p, l) : \A i \in OvGts(d, p, l) : RLeq(d.iou[<<p.a, d.gts[i].a>>], d.iou[<<p.a, d.gts[j].a>>])
(* the ranked entries of a label: [i, pa, s, iou, ga], ga = -1 when there is no ground truth to win *)
Entry(d, i, j, k) ==
  LET p == d.pds[j]
      x == p.ls[k]
      S == OvGts(d, p, x.l)
  IN IF S = {} THEN [i |-> i, pa |-> p.a, s |-> x.s, iou |-> Zero, ga |-> -1]
     ELSE [i |-> i, pa |-> p.a, s |-> x.s, iou |-> d.iou[<<p.a, d.gts[Best(d, p, x.l)].a>>], ga |-> d.gts[Best(d, p, x.l)].a]
EntriesOf(d, i, l) ==
  {Entry(d, i, q[1], q[2]) : q \in {q \in (1..Len(d.pds)) \X (1..10) :
      /\ q[2] <= Len(d.pds[q[1]].ls) /\ d.pds[q[1]].ls[q[2]].l = l
      /\ (HasCorrect(d, d.pds[q[1]]) => OvGts(d, d.pds[q[1]], l) # {})}}
Ranked(e, l) == UNION {EntriesOf(e.ds[i], i, l) : i \in Idx(e)}
GtsOf(e, l) == UNION {{<<i, e.ds[i].gts[j].a>> : j \in {j \in 1..Len(e.ds[i].gts) : e.ds[i].gts[j].l = l}} : i \in Idx(e)}
Before(x, y) == x.s > y.s \/ (x.s = y.s /\ RLess(y.iou, x.iou))
(* winners at overlap threshold t: for each ground truth the highest scoring entry assigned to it that reaches t *)
Reach(R, t) == {x \in R : x.ga # -1 /\ RLeq(t, x.iou) /\ x.s > 0}
Winners(R, t) == LET C == Reach(R, t) IN
  {x \in C : ~\E y \in C : y # x /\ y.i = x.i /\ y.ga = x.ga /\ (Before(y, x) \/ (~Before(x, y) /\ y.pa < x.pa))}
Positive(x, s) == x.s > 0 /\ x.s >= s
CountsR(R, W, ng, s) == LET tp == N({x \in W : x.s >= s}) IN [tp |-> tp, fp |-> N({x \in R : Positive(x, s)}) - tp, fn |-> ng - tp]
Precision(c) == Ratio(c.tp, c.tp + c.fp)
Recall(c) == Ratio(c.tp, c.tp + c.fn)
F1c(c) == F1(c.tp, c.fp, c.fn)

-----------------------------------------------------------------------------
(* Precision-recall curve and averages (C11), in millionths *)
(* one point per winner: recall in percent (rounded down), precision, score *)
Points(R, W, ng) == {LET k == Quantify(W, LAMBDA y : ~Before(x, y)) IN
                       [r |-> (100 * k) \div ng, p |-> Ratio(k, Quantify(R, LAMBDA y : y = x \/ Before(y, x))), s |-> x.s] : x \in W}
CurveP(P, k) == FoldSet(LAMBDA q, a : RMax(q.p, a), Zero, {q \in P : q.r >= k})
CurveS(R, P, k) == IF k = 0 THEN FoldSet(LAMBDA q, a : MaxI(q.s, a), 0, R) ELSE FoldSet(LAMBDA q, a : MaxI(q.s, a), 0, {q \in P : q.r >= k})
Curve(P) == [k \in 1..101 |-> Micro(CurveP(P, k - 1))]
AvgPrec(cv) == FoldLeft(LAMBDA a, x : a + x, 0, cv) \div 101

-----------------------------------------------------------------------------
(* Confusion matrix and examples (C12) *)
GtA(d, a) == d.gts[CHOOSE j \in 1..Len(d.gts) : d.gts[j].a = a]
PdA(d, a) == d.pds[CHOOSE j \in 1..Len(d.pds) : d.pds[j].a = a]
OkEntries(p, s) == {k \in 1..Len(p.ls) : Positive(p.ls[k], s)}
(* matched pairs reaching the thresholds *)
PairsAt(d, t, s) == {q \in d.M : RLeq(t, d.iou[<<q[2], q[1]>>]) /\ OkEntries(PdA(d, q[2]), s) # {}}
(* <<ga, pa, gl, pl>> *)
MatchesAt(d, t, s) == UNION {{<<q[1], q[2], GtA(d, q[1]).l, PdA(d, q[2]).ls[k].l>> : k \in OkEntries(PdA(d, q[2]), s)} : q \in PairsAt(d, t, s)}
(* <<pa, pl>>: entries of predictions outside of all matched pairs *)
FreePds(d, t, s) == LET used == {q[2] : q \in PairsAt(d, t, s)} IN
  UNION {{<<d.pds[j].a, d.pds[j].ls[k].l>> : k \in OkEntries(d.pds[j], s)} : j \in {j \in 1..Len(d.pds) : d.pds[j].a \notin used}}
(* <<ga, gl>> *)
FreeGts(d, t, s) == LET used == {q[1] : q \in PairsAt(d, t, s)} IN
  {<<d.gts[j].a, d.gts[j].l>> : j \in {j \in 1..Len(d.gts) : d.gts[j].a \notin used}}
ExTP(d, t, s) == {<<q[1], q[2]>> : q \in {q \in MatchesAt(d, t, s) : q[3] = q[4]}}
(* <<pa, pl>>, a prediction is listed once per wrong or unmatched label *)
ExFP(d, t, s) == {<<q[2], q[4]>> : q \in {q \in MatchesAt(d, t, s) : q[3] # q[4]}} \cup FreePds(d, t, s)
ExFN(d, t, s) == {q[1] : q \in {q \in MatchesAt(d, t, s) : q[3] # q[4]}} \cup {q[1] : q \in FreeGts(d, t, s)}
=============================================================================
