-------------------------------- MODULE Seg --------------------------------
(***************************************************************************)
(* Semantic segmentation.  A raw datum is [u, m, n, gts, pds]: n pixels    *)
(* and sequences of masks [l, m, px] (label, metadata, set of pixels as a  *)
(* sequence).  An image assigns to every pixel a ground truth label and a  *)
(* predicted label (or Bg): the first mask that covers it.  An evaluator   *)
(* is [labels, ds].                                                        *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, FiniteSetsExt, TLC
Missing == -1000
Bg == -1
N(S) == Cardinality(S)
SumOver(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)

-----------------------------------------------------------------------------
(* Building *)
Covering(ms, x) == {i \in 1..Len(ms) : x \in ToSet(ms[i].px)}
Paint(ms, n) == [x \in 1..n |-> LET c == Covering(ms, x) IN IF c = {} THEN Bg ELSE ms[Min(c)].l]
LabelsIn(ms) == {ms[i].l : i \in 1..Len(ms)}
(* all masks of one label of one image carry the same metadata *)
MetaOf(ms) == [x \in LabelsIn(ms) |-> ms[CHOOSE i \in 1..Len(ms) : ms[i].l = x].m]
Image(d) == [u |-> d.u, m |-> d.m, n |-> d.n, g |-> Paint(d.gts, d.n), p |-> Paint(d.pds, d.n), gm |-> MetaOf(d.gts), pm |-> MetaOf(d.pds)]
Build(raw) == [labels |-> UNION {LabelsIn(raw[i].gts) \cup LabelsIn(raw[i].pds) : i \in 1..Len(raw)},
               ds |-> [i \in 1..Len(raw) |-> Image(raw[i])]]

-----------------------------------------------------------------------------
(* Filtering: labels of an image that do not pass become background *)
AtomOn(a, v) == CASE a.k = "m" -> v # Missing /\ ((v >= a.n) # (a.neg = 1))
                  [] OTHER -> (v \in ToSet(a.set)) # (a.neg = 1)
AllAtoms(f, val(_)) == \A i \in 1..Len(f) : AtomOn(f[i], val(f[i].k))
DatumOk(d, f) == AllAtoms(f, LAMBDA k : IF k = "m" THEN d.m ELSE d.u)
LabelOk(x, meta, f) == x = Bg \/ AllAtoms(f, LAMBDA k : IF k = "m" THEN (IF x \in DOMAIN meta THEN meta[x] ELSE Missing) ELSE x)
Erase(img, meta, f) == [x \in DOMAIN img |-> IF LabelOk(img[x], meta, f) THEN img[x] ELSE Bg]
FilterImage(d, f) == [d EXCEPT !.g = Erase(d.g, d.gm, f.g), !.p = Erase(d.p, d.pm, f.p)]
Filter(e, f) == LET kept == SelectSeq(e.ds, LAMBDA d : DatumOk(d, f.d))
                IN [e EXCEPT !.ds = [i \in 1..Len(kept) |-> FilterImage(kept[i], f)]]
OnDatums(f) == [d |-> f, g |-> <<>>, p |-> <<>>]

-----------------------------------------------------------------------------
(* Pixel totals: the confusion matrix over labels and background *)
Idx(e) == 1..Len(e.ds)
PixelsIn(d, g, p) == N({x \in 1..d.n : d.g[x] = g /\ d.p[x] = p})
Cell(e, g, p) == SumOver(Idx(e), LAMBDA i : PixelsIn(e.ds[i], g, p))
Hits(e) == UNION {{<<e.ds[i].g[x], e.ds[i].p[x]>> : x \in 1..e.ds[i].n} : i \in Idx(e)}
Matrix(e) == [q \in Hits(e) |-> Cell(e, q[1], q[2])]         \* without the pairs no pixel falls into
At(M, g, p) == IF <<g, p>> \in DOMAIN M THEN M[<<g, p>>] ELSE 0
Pixels(e) == SumOver(Idx(e), LAMBDA i : e.ds[i].n)
GtPixels(e) == SumOver(Idx(e), LAMBDA i : N({x \in 1..e.ds[i].n : e.ds[i].g[x] # Bg}))
PdPixels(e) == SumOver(Idx(e), LAMBDA i : N({x \in 1..e.ds[i].n : e.ds[i].p[x] # Bg}))
(* metrics from a matrix M over labels L *)
GtOf(M, L, g) == SumOver({q \in DOMAIN M : q[1] = g}, LAMBDA q : M[q])
PdOf(M, L, p) == SumOver({q \in DOMAIN M : q[2] = p}, LAMBDA q : M[q])
IouOf(M, L, g, p) == Ratio(At(M, g, p), GtOf(M, L, g) + PdOf(M, L, p) - At(M, g, p))
PrecOf(M, L, x) == Ratio(At(M, x, x), PdOf(M, L, x))
RecOf(M, L, x) == Ratio(At(M, x, x), GtOf(M, L, x))
F1Of(M, L, x) == IF At(M, x, x) = 0 THEN Zero ELSE Ratio(2 * At(M, x, x), GtOf(M, L, x) + PdOf(M, L, x))
AccOf(M, L) == Ratio(SumOver(L \cup {Bg}, LAMBDA x : At(M, x, x)), SumOver(DOMAIN M, LAMBDA q : M[q]))
MeanIou(M, L) == LET ls == SetToSeq(L) IN MicroMean([i \in 1..Len(ls) |-> Micro(IouOf(M, L, ls[i], ls[i]))])
FreePd(M, L, p) == Ratio(At(M, Bg, p), PdOf(M, L, p))
FreeGt(M, L, g) == Ratio(At(M, g, Bg), GtOf(M, L, g))
=============================================================================
