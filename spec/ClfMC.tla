------------------------------- MODULE ClfMC -------------------------------
(***************************************************************************)
(* Exhaustive check, over all small datasets, that the way counts and      *)
(* matrices are computed (row masks per file, deduplicated, summed over    *)
(* files) equals their meaning in Clf, and that the accounting laws hold.  *)
(***************************************************************************)
EXTENDS Clf
CONSTANTS ND, Labels, Scores, Ths
VARIABLES e, s, hm, cut
(* each datum scores a non-empty subset of the labels *)
PdFuns == UNION {[S -> Scores] : S \in (SUBSET Labels) \ {{}}}
ToPd(f) == LET ls == SetToSortSeq(DOMAIN f, LAMBDA a, b : a < b) IN [i \in 1..Len(ls) |-> [l |-> ls[i], s |-> f[ls[i]]]]
Raw == [gt : Labels, f : PdFuns]
Nothing == [labels |-> {}, ds |-> <<>>]
Init == /\ e = Nothing /\ s \in Ths /\ hm \in BOOLEAN
        /\ cut \in 0..ND               \* where the first file ends
Next == /\ e = Nothing /\ UNCHANGED <<s, hm, cut>>
        /\ \E raw \in [1..ND -> Raw] : e' = Build([i \in 1..ND |-> [u |-> i, m |-> i, gt |-> raw[i].gt, pd |-> ToPd(raw[i].f)]])
Spec == Init /\ [][Next]_<<e, s, hm, cut>>

(* mechanism: rows [d, gt, l, s, w] of one file *)
RowsOf(ds, from, to) == {<<i, j>> : i \in from..to, j \in 1..20} \cap {q \in (from..to) \X (1..20) : q[2] <= Len(ds[q[1]].pd)}
G(q) == e.ds[q[1]].gt
P(q) == e.ds[q[1]].pd[q[2]]
MScore(q) == Pos(P(q), s, hm)
FileCounts(R, l) ==
  [tp |-> N({q \in R : G(q) = P(q).l /\ MScore(q) /\ P(q).l = l}),
   fp |-> N({q \in R : G(q) # P(q).l /\ MScore(q) /\ P(q).l = l}),
   fn |-> N({q[1] : q \in {q \in R : G(q) = l /\ ((G(q) = P(q).l /\ ~MScore(q)) \/ (G(q) # P(q).l /\ MScore(q)))}}),
   tn |-> N({q[1] : q \in {q \in R : G(q) # P(q).l /\ ~MScore(q) /\ P(q).l = l}})]
FileCell(R, g, p) == N({q[1] : q \in {q \in R : G(q) = g /\ P(q).l = p /\ MScore(q)}})
FileUnm(R, g) == N({q[1] : q \in {q \in R : G(q) = g /\ ~\E r \in R : r[1] = q[1] /\ MScore(r)}})
R1 == RowsOf(e.ds, 1, cut)
R2 == RowsOf(e.ds, cut + 1, ND)
MechanismCounts == \A l \in e.labels : LET a == FileCounts(R1, l) b == FileCounts(R2, l) IN
    [tp |-> a.tp + b.tp, fp |-> a.fp + b.fp, fn |-> a.fn + b.fn, tn |-> a.tn + b.tn] = Counts(e, l, s, hm)
MechanismMatrix == \A g \in e.labels :
    /\ FileUnm(R1, g) + FileUnm(R2, g) = N(UnmatchedSet(e, g, s, hm))
    /\ \A p \in e.labels : FileCell(R1, g, p) + FileCell(R2, g, p) = N(CellSet(e, g, p, s, hm))
(* accounting laws *)
HardmaxAccounts == hm => \A g \in e.labels :
    SumOver(e.labels, LAMBDA p : N(CellSet(e, g, p, s, hm))) + N(UnmatchedSet(e, g, s, hm)) = GtCount(e, g)
MatrixAgrees == \A l \in e.labels : LET c == Counts(e, l, s, hm) IN
    /\ c.tp = N(CellSet(e, l, l, s, hm))
    /\ c.fp = SumOver(e.labels \ {l}, LAMBDA g : N(CellSet(e, g, l, s, hm)))
    /\ c.tp <= GtCount(e, l) /\ c.fn <= GtCount(e, l)
ExamplesAgree == \A g \in e.labels :
    /\ N({i \in Idx(e) : g \in ExTP(e.ds[i], s, hm)}) = Counts(e, g, s, hm).tp
    /\ N({i \in Idx(e) : g \in ExFP(e.ds[i], s, hm)}) = Counts(e, g, s, hm).fp
    /\ \A i \in UnmatchedSet(e, g, s, hm) : g \in ExFN(e.ds[i], s, hm)
Ranges == LET a == Accuracy(e, s, hm) IN RLeq(Zero, a) /\ RLeq(a, One)
Monotone == \A l \in e.labels : Counts(e, l, s + 1, hm).tp <= Counts(e, l, s, hm).tp /\ Counts(e, l, s + 1, hm).fp <= Counts(e, l, s, hm).fp
(* C15: filters compose, and filtering is counting only what passes *)
FU == [d |-> <<[k |-> "u", set |-> <<1>>, neg |-> 1]>>, g |-> <<>>, p |-> <<>>]
FS == [d |-> <<>>, g |-> <<>>, p |-> <<[k |-> "s", n |-> 1, neg |-> 0]>>]
FB == [d |-> FU.d, g |-> <<>>, p |-> FS.p]
FiltersCompose == Filter(Filter(e, FU), FS) = Filter(e, FB) /\ Filter(Filter(e, FS), FU) = Filter(e, FB) /\ Filter(Filter(e, FB), FB) = Filter(e, FB)
(* C22: reordering datums changes nothing *)
Rev == [e EXCEPT !.ds = Reverse(@)]
OrderFree == \A l \in e.labels : Counts(Rev, l, s, hm) = Counts(e, l, s, hm)
=============================================================================
