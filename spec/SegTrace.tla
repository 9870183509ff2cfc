----------------------------- MODULE SegTrace -----------------------------
(* Validates recorded segmentation sessions against Seg.  Ev.p names the property under test. *)
EXTENDS Seg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, e
Ev == Trace[l]
Clause(c, ok) == IF ok THEN {} ELSE {Ev.p \o "." \o c}
Report(b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
Sub == Filter(e, OnDatums(Ev.f))
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
Wide == "keys" \in DOMAIN Ev     \* only the non-zero cells of a matrix are listed, with its keys and extent
Extent(L) == ~Wide \/ (Ev.extent = <<N(L)>> /\ ToSet(Ev.keys) = L)
Same(got, want) == NoDup(got) /\ ToSet(got) = want
DoData == Ev.e = "data" /\ e' = Build(Ev.ds)
DoFilter == /\ Ev.e = "filter"
            /\ LET n == Filter(e, Ev.f) IN
               /\ Report(Clause("empty", (n.ds = <<>>) = (Ev.empty = 1)))
               /\ e' = IF n.ds = <<>> THEN e ELSE n
(* dataset numbers, with all three filters *)
DoInfo == /\ Ev.e = "info" /\ UNCHANGED e
          /\ LET sub == Sub fil == Filter(e, [d |-> Ev.f, g |-> Ev.g, p |-> Ev.q]) IN
             Report(Clause("labels", Ev.labels = N(e.labels)) \cup Clause("datums", Ev.datums = Len(sub.ds))
                    \cup Clause("pixels", Ev.pixels = Pixels(sub))
                    \cup Clause("groundtruth_pixels", Ev.gts = GtPixels(fil)) \cup Clause("prediction_pixels", Ev.pds = PdPixels(fil)))
DoPR == /\ Ev.e = "pr" /\ UNCHANGED e
        /\ LET sub == Sub L == e.labels M == TLCEval(Matrix(sub)) LL == IF Wide THEN {q \in DOMAIN M : q[1] # Bg /\ q[2] # Bg} ELSE {<<x, y>> : x \in L, y \in L} IN
           Report(Clause("precision", Same(Ev.prec, {<<x, PrecOf(M, L, x)>> : x \in L}))
                  \cup Clause("recall", Same(Ev.rec, {<<x, RecOf(M, L, x)>> : x \in L}))
                  \cup Clause("f1", Same(Ev.f1, {<<x, F1Of(M, L, x)>> : x \in L}))
                  \cup Clause("iou", Same(Ev.iou, {<<x, IouOf(M, L, x, x)>> : x \in L}))
                  \cup Clause("mean_iou", Len(Ev.miou) = 1 /\ Near(Ev.miou[1], MeanIou(M, L)))
                  \cup Clause("accuracy", Ev.acc = <<AccOf(M, L)>>)
                  \cup Clause("matrix", Extent(L) /\ Same(Ev.cells, {<<q[1], q[2], IouOf(M, L, q[1], q[2])>> : q \in LL}))
                  \cup Clause("unmatched_gt", Same(Ev.ugt, {<<x, FreeGt(M, L, x)>> : x \in L}))
                  \cup Clause("unmatched_pd", Same(Ev.upd, {<<x, FreePd(M, L, x)>> : x \in L})))
DoExc == Ev.e = "exc" /\ UNCHANGED e /\ Report({Ev.p \o ".exception"})
Init == l = 1 /\ e = [labels |-> {}, ds |-> <<>>]
Next == /\ l' = l + 1
        /\ \/ l <= Len(Trace) /\ (DoData \/ DoFilter \/ DoInfo \/ DoPR \/ DoExc)
           \/ l = Len(Trace) + 1 /\ UNCHANGED e /\ PrintT(<<"DONE", Len(Trace)>>)
Spec == Init /\ [][Next]_<<l, e>>
=============================================================================
