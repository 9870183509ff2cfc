------------------------------- MODULE SegMC -------------------------------
(***************************************************************************)
(* All scenes of ND images of NP pixels with up to NM masks per side:      *)
(* the way the code counts (trim overlaps mask by mask, intersect trimmed  *)
(* masks pairwise, sum per label, derive the background) equals the        *)
(* painting of Seg, pixels are conserved, and ratios stay in range.        *)
(***************************************************************************)
EXTENDS Seg
CONSTANTS ND, NP, NM, Labels, Meta
VARIABLES raw
Mask == [l : Labels, m : {0}, px : SUBSET (1..NP)]
Masks == UNION {[1..k -> Mask] : k \in 0..NM}
AsSeq(ms) == [i \in 1..Len(ms) |-> [l |-> ms[i].l, m |-> (ms[i].l + Meta) % 2, px |-> SetToSeq(ms[i].px)]]
VARIABLE half        \* ground truth masks of the image being built
Init == raw = <<>> /\ half = <<>>
Next == /\ Len(raw) < ND
        /\ \/ half = <<>> /\ \E g \in Masks : half' = <<AsSeq(g)>> /\ UNCHANGED raw
           \/ half # <<>> /\ half' = <<>> /\ \E p \in Masks :
               raw' = Append(raw, [u |-> Len(raw) + 1, m |-> Len(raw), n |-> NP, gts |-> half[1], pds |-> AsSeq(p)])
Spec == Init /\ [][Next]_<<raw, half>>

(* mechanism *)
Trimmed(ms) == [i \in 1..Len(ms) |-> ToSet(ms[i].px) \ UNION {ToSet(ms[j].px) : j \in 1..(i - 1)}]
In01(x) == RLeq(Zero, x) /\ RLeq(x, One)
FD == [d |-> <<[k |-> "u", set |-> <<1>>, neg |-> 1]>>, g |-> <<>>, p |-> <<>>]
FG == [d |-> <<>>, g |-> <<[k |-> "l", set |-> <<1>>, neg |-> 0]>>, p |-> <<[k |-> "m", n |-> 1, neg |-> 0]>>]
FB == [d |-> FD.d, g |-> FG.g, p |-> FG.p]
Disjoint(ms) == \A i, j \in 1..Len(ms) : i # j => ToSet(ms[i].px) \cap ToSet(ms[j].px) = {}
Drop(d) == [d EXCEPT !.gts = SelectSeq(@, LAMBDA x : x.l = 1), !.pds = SelectSeq(@, LAMBDA x : x.m >= 1)]
Mechanism == LET e == Build(raw) L == e.labels IN \A i \in 1..Len(raw) :
    LET d == raw[i] TG == Trimmed(d.gts) TP == Trimmed(d.pds) G == 1..Len(d.gts) P == 1..Len(d.pds)
        I == [q \in G \X P |-> N(TG[q[1]] \cap TP[q[2]])]
    IN /\ N((1..d.n) \ (UNION {TG[k] : k \in G} \cup UNION {TP[k] : k \in P})) = PixelsIn(e.ds[i], Bg, Bg)
       /\ \A x \in L : /\ SumOver({k \in G : d.gts[k].l = x}, LAMBDA k : N(TG[k]) - SumOver(P, LAMBDA j : I[<<k, j>>])) = PixelsIn(e.ds[i], x, Bg)
                        /\ SumOver({k \in P : d.pds[k].l = x}, LAMBDA k : N(TP[k]) - SumOver(G, LAMBDA j : I[<<j, k>>])) = PixelsIn(e.ds[i], Bg, x)
                        /\ \A y \in L : SumOver({q \in DOMAIN I : d.gts[q[1]].l = x /\ d.pds[q[2]].l = y}, LAMBDA q : I[q]) = PixelsIn(e.ds[i], x, y)
ConservedAndInRange == LET e == Build(raw) L == e.labels M == Matrix(e) IN
    /\ SumOver(DOMAIN M, LAMBDA q : M[q]) = Pixels(e)
    /\ SumOver(L, LAMBDA g : GtOf(M, L, g)) = GtPixels(e)
    /\ SumOver(L, LAMBDA p : PdOf(M, L, p)) = PdPixels(e)
    /\ In01(AccOf(M, L))
    /\ \A x \in L : /\ In01(PrecOf(M, L, x)) /\ In01(RecOf(M, L, x)) /\ In01(F1Of(M, L, x)) /\ In01(FreePd(M, L, x)) /\ In01(FreeGt(M, L, x))
                     /\ RLeq(IouOf(M, L, x, x), F1Of(M, L, x))
                     /\ \A y \in L : In01(IouOf(M, L, x, y))
(* C15: filters compose, conserve pixels, and equal rebuilding without the masks that fail (for disjoint masks) *)
Filters == LET e == Build(raw) fg == Filter(e, FG) fb == Filter(e, FB) L == e.labels IN
    /\ Filter(Filter(e, FD), FG) = fb /\ Filter(fg, FD) = fb /\ Filter(fb, FB) = fb
    /\ Pixels(fg) = Pixels(e) /\ GtPixels(fg) <= GtPixels(e)
    /\ (\A i \in 1..Len(raw) : Disjoint(raw[i].gts) /\ Disjoint(raw[i].pds)) =>
         LET b == Build([i \in 1..Len(raw) |-> Drop(raw[i])]) IN
         \A g \in L \cup {Bg}, p \in L \cup {Bg} : Cell(fg, g, p) = Cell(b, g, p)
(* C22: order of datums *)
OrderFree == Matrix(Build(Reverse(raw))) = Matrix(Build(raw))
=============================================================================
