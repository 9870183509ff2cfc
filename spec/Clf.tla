-------------------------------- MODULE Clf --------------------------------
(***************************************************************************)
(* Classification.  An evaluator is [labels, ds]: the label set and a      *)
(* sequence of datums [u, m, gt, pd] where pd is a sequence of predictions *)
(* [l, s, w]: label, score (integer grid), and whether it was the datum's  *)
(* first highest-scoring prediction when it was added.                     *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, FiniteSetsExt, TLC

Missing == -1000

-----------------------------------------------------------------------------
(* Building *)
Winner(pd) == CHOOSE i \in 1..Len(pd) : /\ \A j \in 1..Len(pd) : pd[j].s <= pd[i].s
                                        /\ \A j \in 1..(i - 1) : pd[j].s < pd[i].s
Datum(d) == [u |-> d.u, m |-> d.m, gt |-> d.gt,
             pd |-> [i \in 1..Len(d.pd) |-> [l |-> d.pd[i].l, s |-> d.pd[i].s, w |-> i = Winner(d.pd)]]]
LabelsOf(ds) == UNION {{ds[i].gt} \cup {ds[i].pd[j].l : j \in 1..Len(ds[i].pd)} : i \in 1..Len(ds)}
Build(raw) == LET ds == [i \in 1..Len(raw) |-> Datum(raw[i])] IN [labels |-> LabelsOf(ds), ds |-> ds]

-----------------------------------------------------------------------------
(* Filters: a conjunction of atoms [k, ...]; metadata that is missing satisfies no condition *)
AtomOn(a, v) == CASE a.k = "m" -> v # Missing /\ ((v >= a.n) # (a.neg = 1))
                  [] a.k = "s" -> (v >= a.n) # (a.neg = 1)
                  [] OTHER -> (v \in ToSet(a.set)) # (a.neg = 1)
AllAtoms(f, val(_)) == \A i \in 1..Len(f) : AtomOn(f[i], val(f[i].k))
DatumOk(d, f) == AllAtoms(f, LAMBDA k : IF k = "m" THEN d.m ELSE d.u)
GtOk(d, f) == AllAtoms(f, LAMBDA k : IF k = "m" THEN d.m ELSE d.gt)
PdOk(d, p, f) == AllAtoms(f, LAMBDA k : CASE k = "m" -> d.m [] k = "s" -> p.s [] OTHER -> p.l)
FilterDatum(d, f) == [d EXCEPT !.pd = SelectSeq(@, LAMBDA p : PdOk(d, p, f.p))]
(* a datum without a remaining ground truth or prediction disappears; the label set is kept *)
Filter(e, f) ==
  LET kept == SelectSeq(e.ds, LAMBDA d : DatumOk(d, f.d) /\ GtOk(d, f.g))
      cut == [i \in 1..Len(kept) |-> FilterDatum(kept[i], f)]
  IN [e EXCEPT !.ds = SelectSeq(cut, LAMBDA d : d.pd # <<>>)]
NoFilter == [d |-> <<>>, g |-> <<>>, p |-> <<>>]
OnDatums(f) == [d |-> f, g |-> <<>>, p |-> <<>>]

-----------------------------------------------------------------------------
(* Meaning of the metrics (C06, C07) *)
Pos(p, s, hm) == p.s > 0 /\ p.s >= s /\ (hm => p.w)
PosSet(d, s, hm) == {i \in 1..Len(d.pd) : Pos(d.pd[i], s, hm)}
PosLabels(d, s, hm) == {d.pd[i].l : i \in PosSet(d, s, hm)}
Own(d) == {i \in 1..Len(d.pd) : d.pd[i].l = d.gt}
Idx(e) == 1..Len(e.ds)
N(S) == Cardinality(S)
TPset(e, l, s, hm) == {i \in Idx(e) : e.ds[i].gt = l /\ l \in PosLabels(e.ds[i], s, hm)}
FPset(e, l, s, hm) == {i \in Idx(e) : e.ds[i].gt # l /\ l \in PosLabels(e.ds[i], s, hm)}
FNset(e, l, s, hm) == {i \in Idx(e) : /\ e.ds[i].gt = l
                                      /\ \/ \E j \in Own(e.ds[i]) : ~Pos(e.ds[i].pd[j], s, hm)
                                         \/ PosLabels(e.ds[i], s, hm) \ {l} # {}}
TNset(e, l, s, hm) == {i \in Idx(e) : /\ e.ds[i].gt # l
                                      /\ \E j \in 1..Len(e.ds[i].pd) : e.ds[i].pd[j].l = l /\ ~Pos(e.ds[i].pd[j], s, hm)}
Counts(e, l, s, hm) == [tp |-> N(TPset(e, l, s, hm)), fp |-> N(FPset(e, l, s, hm)),
                        fn |-> N(FNset(e, l, s, hm)), tn |-> N(TNset(e, l, s, hm))]
Precision(c) == Ratio(c.tp, c.tp + c.fp)
Recall(c) == Ratio(c.tp, c.tp + c.fn)
F1c(c) == F1(c.tp, c.fp, c.fn)
SumOver(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
Accuracy(e, s, hm) == Ratio(SumOver(e.labels, LAMBDA l : N(TPset(e, l, s, hm))), Len(e.ds))
(* confusion matrix *)
CellSet(e, g, p, s, hm) == {i \in Idx(e) : e.ds[i].gt = g /\ p \in PosLabels(e.ds[i], s, hm)}
UnmatchedSet(e, g, s, hm) == {i \in Idx(e) : e.ds[i].gt = g /\ PosLabels(e.ds[i], s, hm) = {}}
ScoreOf(d, l) == d.pd[CHOOSE i \in 1..Len(d.pd) : d.pd[i].l = l].s
(* examples per datum *)
ExTP(d, s, hm) == {d.gt} \cap PosLabels(d, s, hm)
ExFP(d, s, hm) == PosLabels(d, s, hm) \ {d.gt}
ExFN(d, s, hm) == {d.gt} \ PosLabels(d, s, hm)
GtCount(e, g) == N({i \in Idx(e) : e.ds[i].gt = g})

-----------------------------------------------------------------------------
(* ROC AUC (C08): how often a positive datum outranks a negative one that scores the label; *)
(* a positive datum without a score for the label outranks nothing                           *)
Scored(e, l) == {i \in Idx(e) : \E j \in 1..Len(e.ds[i].pd) : e.ds[i].pd[j].l = l}
PosD(e, l) == {i \in Idx(e) : e.ds[i].gt = l}
NegD(e, l) == Scored(e, l) \ PosD(e, l)
Wins(x, y) == IF x > y THEN 2 ELSE IF x = y THEN 1 ELSE 0
MannWhitney(e, l) == SumOver((PosD(e, l) \cap Scored(e, l)) \X NegD(e, l), LAMBDA q : Wins(ScoreOf(e.ds[q[1]], l), ScoreOf(e.ds[q[2]], l)))
Auc(e, l) == Ratio(MannWhitney(e, l), 2 * N(PosD(e, l)) * N(NegD(e, l)))
MeanAuc(e) == LET ls == SetToSeq(e.labels) IN MicroMean([i \in 1..Len(ls) |-> Micro(Auc(e, ls[i]))])
=============================================================================
