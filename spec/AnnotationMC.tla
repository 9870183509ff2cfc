---------------------------- MODULE AnnotationMC ----------------------------
(* Annotations are made one after the other and put together; what is refused is not there. *)
EXTENDS Annotation, SequencesExt
CONSTANTS MaxL, MaxA, MaxM, Px
VARIABLES gs, ps, masks, refused
Geos == {"ok", "empty", "wrong"}
Anns == [kind : {"box", "poly", "mask"}, geo : Geos, nl : 0..MaxL, ns : 0..MaxL]
Masks == [b : {0, 1}, sh : {<<1, Px>>, <<Px, 1>>}, px : {SetToSeq(S) : S \in SUBSET (1..Px)}]
Init == gs = <<>> /\ ps = <<>> /\ masks = <<>> /\ refused = 0
AddG == Len(gs) < MaxA /\ UNCHANGED <<ps, masks>> /\ \E a \in Anns : IF AnnOk(a) THEN gs' = Append(gs, a) /\ UNCHANGED refused ELSE refused' = 1 /\ UNCHANGED gs
AddP == Len(ps) < MaxA /\ UNCHANGED <<gs, masks>> /\ \E a \in Anns : IF AnnOk(a) /\ a.ns = a.nl THEN ps' = Append(ps, a) /\ UNCHANGED refused ELSE refused' = 1 /\ UNCHANGED ps
AddM == Len(masks) < MaxM /\ UNCHANGED <<gs, ps>> /\ \E m \in Masks : IF MaskOk(m, <<1, Px>>) THEN masks' = Append(masks, m) /\ UNCHANGED refused ELSE refused' = 1 /\ UNCHANGED masks
Next == AddG \/ AddP \/ AddM
Spec == Init /\ [][Next]_<<gs, ps, masks, refused>>
(* what the loaders and users rely on *)
Usable == DetOk(gs, ps)
Labelled == \A i \in 1..Len(gs) : gs[i].nl >= 1 /\ gs[i].geo = "ok"
Scored == \A i \in 1..Len(ps) : ps[i].nl >= 1 /\ ps[i].ns = ps[i].nl /\ ps[i].geo = "ok"
T == Trim(masks)
Disjoint == \A i, j \in 1..Len(masks) : i # j => T[i] \cap T[j] = {}
NothingLost == UNION {T[i] : i \in 1..Len(masks)} = UNION {ToS(masks[i].px) : i \in 1..Len(masks)}
OnlyLess == \A i \in 1..Len(masks) : T[i] \subseteq ToS(masks[i].px)
FirstKept == masks # <<>> => T[1] = ToS(masks[1].px)
UntouchedIfDisjoint == (\A i, j \in 1..Len(masks) : i # j => ToS(masks[i].px) \cap ToS(masks[j].px) = {}) => \A i \in 1..Len(masks) : T[i] = ToS(masks[i].px)
=============================================================================
