----------------------------- MODULE ClfTrace -----------------------------
(***************************************************************************)
(* Validates recorded classification sessions: the evaluator `e` is built, *)
(* filtered and queried; every answer of the real code is compared with    *)
(* the meaning given in Clf.  Ev.p names the property under test.          *)
(***************************************************************************)
EXTENDS Clf, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, e
Ev == Trace[l]
Clause(c, ok) == IF ok THEN {} ELSE {Ev.p \o "." \o c}
Report(b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
Sub == Filter(e, OnDatums(Ev.f))
HM == Ev.hm = 1
Ths == ToSet(Ev.ss)
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
Same(got, want) == NoDup(got) /\ ToSet(got) = want

DoData == Ev.e = "data" /\ e' = Build(Ev.ds)
DoFilter == /\ Ev.e = "filter"
            /\ LET n == Filter(e, Ev.f) IN
               /\ Report(Clause("empty", (n.ds = <<>>) = (Ev.empty = 1)))
               /\ e' = IF n.ds = <<>> THEN e ELSE n
DoInfo == /\ Ev.e = "info" /\ UNCHANGED e
          /\ Report(Clause("labels", Ev.labels = N(e.labels))
                    \cup Clause("datums", Ev.datums = Len(Sub.ds)))
(* counts, precision, recall, f1 per (threshold, label); accuracy per threshold *)
DoPR == /\ Ev.e = "pr" /\ UNCHANGED e
        /\ LET sub == TLCEval(Sub)
               C == TLCEval([q \in Ths \X e.labels |-> Counts(sub, q[2], q[1], HM)])
               K == Ths \X e.labels
           IN Report(Clause("counts", Same(Ev.counts, {<<q[1], q[2], C[q].tp, C[q].fp, C[q].fn, C[q].tn>> : q \in K}))
                     \cup Clause("precision", Same(Ev.prec, {<<q[1], q[2], Precision(C[q])>> : q \in K}))
                     \cup Clause("recall", Same(Ev.rec, {<<q[1], q[2], Recall(C[q])>> : q \in K}))
                     \cup Clause("f1", Same(Ev.f1, {<<q[1], q[2], F1c(C[q])>> : q \in K}))
                     \cup Clause("accuracy", Same(Ev.acc, {<<t, Accuracy(sub, t, HM)>> : t \in Ths})))
Wide == "keys" \in DOMAIN Ev     \* only the non-zero cells of a matrix are listed, with its keys and extent
Extent(L) == ~Wide \/ (Ev.extent = <<N(L)>> /\ ToSet(Ev.keys) = L)
CellKeys(sub) == IF ~Wide THEN {<<t, g, q>> : t \in Ths, g \in e.labels, q \in e.labels}
                 ELSE {k \in UNION {{<<t, sub.ds[i].gt, sub.ds[i].pd[j].l>> : j \in 1..Len(sub.ds[i].pd)} : t \in Ths, i \in Idx(sub)} :
                         CellSet(sub, k[2], k[3], k[1], HM) # {}}
DoCM == /\ Ev.e = "cm" /\ UNCHANGED e
        /\ LET sub == TLCEval(Sub) IN
           Report(Clause("cells", Extent(e.labels) /\ Same(Ev.cells, {<<k[1], k[2], k[3], N(CellSet(sub, k[2], k[3], k[1], HM))>> : k \in CellKeys(sub)}))
                  \cup Clause("unmatched", Same(Ev.unm, {<<k[1], k[2], N(UnmatchedSet(sub, k[2], k[1], HM))>> : k \in Ths \X e.labels})))
(* a cell of the matrix with examples: <<t, g, p, count, examples>>, examples a sequence of <<u, score>> *)
CellEx(sub, k) == {<<sub.ds[i].u, ScoreOf(sub.ds[i], k[3])>> : i \in CellSet(sub, k[2], k[3], k[1], HM)}
UnmEx(sub, k) == {sub.ds[i].u : i \in UnmatchedSet(sub, k[2], k[1], HM)}
DoCMX == /\ Ev.e = "cmx" /\ UNCHANGED e
         /\ LET sub == TLCEval(Sub)
                keyOf(c) == <<c[1], c[2], c[3]>>
                keyU(c) == <<c[1], c[2]>>
                CKS == TLCEval(CellKeys(sub))
            IN Report(Clause("example_cells", /\ Extent(e.labels) /\ Len(Ev.cells) = N(CKS)
                                              /\ {keyOf(Ev.cells[i]) : i \in 1..Len(Ev.cells)} = CKS
                                              /\ \A i \in 1..Len(Ev.cells) : LET c == Ev.cells[i] IN
                                                    Same(c[5], CellEx(sub, keyOf(c))) /\ c[4] = Len(c[5]))
                      \cup Clause("example_unmatched", /\ Len(Ev.unm) = N(Ths \X e.labels)
                                              /\ {keyU(Ev.unm[i]) : i \in 1..Len(Ev.unm)} = Ths \X e.labels
                                              /\ \A i \in 1..Len(Ev.unm) : LET c == Ev.unm[i] IN
                                                    Same(c[4], UnmEx(sub, keyU(c))) /\ c[3] = Len(c[4])))
(* examples: <<t, u, tp, fp, fn>> with sequences of labels *)
DoEx == /\ Ev.e = "ex" /\ UNCHANGED e
        /\ LET sub == TLCEval(Sub)
               want == {<<t, sub.ds[i].u>> : t \in Ths, i \in Idx(sub)}
               at(u) == sub.ds[CHOOSE i \in Idx(sub) : sub.ds[i].u = u]
           IN Report(Clause("examples", /\ Same([i \in 1..Len(Ev.rows) |-> <<Ev.rows[i][1], Ev.rows[i][2]>>], want)
                                        /\ \A i \in 1..Len(Ev.rows) : LET r == Ev.rows[i] d == at(r[2]) IN
                                             /\ Same(r[3], ExTP(d, r[1], HM))
                                             /\ Same(r[4], ExFP(d, r[1], HM))
                                             /\ Same(r[5], ExFN(d, r[1], HM))))
DoRoc == /\ Ev.e = "roc" /\ UNCHANGED e
         /\ Report(Clause("auc", Same(Ev.rows, {<<x, Auc(e, x)>> : x \in e.labels}))
                \cup Clause("mean_auc", Near(Ev.mean, MeanAuc(e))))
(* pages of examples: the unpaged listing is cut by datums *)
DoExPage == /\ Ev.e = "expage" /\ UNCHANGED e
            /\ LET ds == FoldLeft(LAMBDA a, x : IF x[2] \in ToSet(a) THEN a ELSE Append(a, x[2]), <<>>, Ev.all)
                   lo == IF Ev.o > Len(ds) THEN Len(ds) ELSE Ev.o
                   hi == IF Ev.n < 0 \/ lo + Ev.n > Len(ds) THEN Len(ds) ELSE lo + Ev.n
                   win == ToSet(SubSeq(ds, lo + 1, hi))
               IN Report(Clause("examples", Ev.rows = SelectSeq(Ev.all, LAMBDA x : x[2] \in win))
                         \cup Clause("examples_total", ToSet(ds) = {Sub.ds[i].u : i \in Idx(Sub)}))
DoRejected == Ev.e = "rejected" /\ UNCHANGED e /\ Report(Clause("rejected", Ev.ok))
DoExc == Ev.e = "exc" /\ UNCHANGED e /\ Report({Ev.p \o ".exception"})
Init == l = 1 /\ e = [labels |-> {}, ds |-> <<>>]
Next == /\ l' = l + 1
        /\ \/ l <= Len(Trace) /\ (DoData \/ DoFilter \/ DoInfo \/ DoPR \/ DoCM \/ DoCMX \/ DoEx \/ DoRoc \/ DoExPage
                                  \/ DoRejected \/ DoExc)
           \/ l = Len(Trace) + 1 /\ UNCHANGED e /\ PrintT(<<"DONE", Len(Trace)>>)
Spec == Init /\ [][Next]_<<l, e>>
=============================================================================
