----------------------------- MODULE Annotation -----------------------------
(***************************************************************************)
(* What may be handed to the loaders (C25).                                *)
(* Detection annotation: [kind, geo, nl, ns] - geometry "ok" or what is    *)
(* wrong with it, numbers of labels and of scores.                         *)
(* Segmentation: a shape <<h, w>> and lists of masks [b, sh, px]: b = 1 if *)
(* it is a bitmask of booleans, sh its shape, px the pixels it sets.       *)
(* Pixels are numbered from 1.  Of overlapping masks the first keeps the   *)
(* pixel.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
AnnOk(a) == a.geo = "ok" /\ (IF a.ns = 0 THEN a.nl = 1 ELSE a.nl = a.ns)
DetOk(gs, ps) == (\A i \in 1..Len(gs) : AnnOk(gs[i])) /\ (\A i \in 1..Len(ps) : AnnOk(ps[i]) /\ ps[i].ns = ps[i].nl)
ClfOk(c) == c.gt = "str" /\ c.np = c.ns
ShapeOk(sh) == Len(sh) = 2 /\ sh[1] > 0 /\ sh[2] > 0
MaskOk(m, sh) == m.b = 1 /\ m.sh = sh
SegOk(s) == ShapeOk(s.sh) /\ (\A i \in 1..Len(s.gs) : MaskOk(s.gs[i], s.sh)) /\ (\A i \in 1..Len(s.ps) : MaskOk(s.ps[i], s.sh))
ToS(q) == {q[i] : i \in 1..Len(q)}
Trim(ms) == [i \in 1..Len(ms) |-> ToS(ms[i].px) \ UNION {ToS(ms[j].px) : j \in 1..(i - 1)}]
Size(sh) == sh[1] * sh[2]
=============================================================================
