-------------------------- MODULE AnnotationTrace ---------------------------
(* Validates recorded constructions.  out = "ok", "refused" or another error; kept = 1 if a constructed object holds what it was given; *)
(* unharmed = 1 if the caller's arrays are as before.                                                                                   *)
EXTENDS Annotation, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Ev == Trace[l]
Clause(c, ok) == IF ok THEN {} ELSE {"C25." \o c}
Report(b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
Admit(c, ok) == Clause(c, Ev.out = (IF ok THEN "ok" ELSE "refused")) \cup Clause("kept", Ev.out # "ok" \/ Ev.kept = 1)
DoAnn == Ev.e = "ann" /\ Report(Admit("annotation", AnnOk(Ev.a)))
DoDet == Ev.e = "det" /\ Report(Admit("detection", DetOk(Ev.gs, Ev.ps)))
DoClf == Ev.e = "clf" /\ Report(Admit("classification", ClfOk(Ev.c)))
DoMask == Ev.e = "bitmask" /\ Report(Admit("bitmask", Ev.b = 1))
Pixels(q) == [i \in 1..Len(q) |-> ToS(q[i])]
DoSeg == /\ Ev.e = "seg"
         /\ Report(Admit("segmentation", SegOk(Ev.s))
                   \cup Clause("unharmed", Ev.unharmed = 1)
                   \cup (IF Ev.out # "ok" \/ ~SegOk(Ev.s) THEN {}
                         ELSE Clause("overlap", Pixels(Ev.gout) = Trim(Ev.s.gs) /\ Pixels(Ev.pout) = Trim(Ev.s.ps))
                              \cup Clause("size", Ev.size = Size(Ev.s.sh))))
DoExc == Ev.e = "exc" /\ Report({Ev.p \o ".exception"})
Init == l = 1
Next == /\ l' = l + 1
        /\ \/ l <= Len(Trace) /\ (DoAnn \/ DoDet \/ DoClf \/ DoMask \/ DoSeg \/ DoExc)
           \/ l = Len(Trace) + 1 /\ PrintT(<<"DONE", Len(Trace)>>)
Spec == Init /\ [][Next]_l
=============================================================================
