-------------------------- MODULE TextOverlapTrace --------------------------
(* Validates recorded BLEU and ROUGE computations.                            *)
(*  bleu  [c, refs, ord, v]: ord = orders with equal weight, v = score^|ord|, *)
(*        in millionths    rouge [c, refs, stem, types, rows]: rows <<type, v>> *)
EXTENDS TextOverlap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Ev == Trace[l]
Clause(c, ok) == IF ok THEN {} ELSE {"C23." \o c}
Report(b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
DoBleu == /\ Ev.e = "bleu"
          /\ LET c == AsWritten(Ev.c) refs == Map(Ev.refs, AsWritten) IN
             Report(Clause("bleu", AbsI(Ev.v - BleuPow(c, refs, ToSet(Ev.ord))) <= 40)
                    \cup Clause("range", Ev.in01 = 1)
                    \cup Clause("bleu_zero", (\E k \in ToSet(Ev.ord) \cup {1} : Clip(c, refs, k) = 0) => Ev.zero = 1)
                    \cup Clause("bleu_metric", Ev.metric_ok = 1))
DoRouge == /\ Ev.e = "rouge"
           /\ LET c == ForRouge(Ev.c, Ev.stem = 1) refs == Map(Ev.refs, LAMBDA r : ForRouge(r, Ev.stem = 1)) IN
              Report(Clause("rouge_types", [i \in 1..Len(Ev.rows) |-> Ev.rows[i][1]] = Ev.types)
                     \cup Clause("rouge", \A i \in 1..Len(Ev.rows) : Ev.rows[i][2] = Rouge(Ev.rows[i][1], c, refs))
                     \cup Clause("rouge_metric", Ev.metric_ok = 1))
(* unusable input: no context, or no weights *)
DoRefuse == Ev.e = "refuse" /\ Report(Clause("refused", Ev.out = "ValueError"))
DoExc == Ev.e = "exc" /\ Report({Ev.p \o ".exception"})
Init == l = 1
Next == /\ l' = l + 1
        /\ \/ l <= Len(Trace) /\ (DoBleu \/ DoRouge \/ DoRefuse \/ DoExc)
           \/ l = Len(Trace) + 1 /\ PrintT(<<"DONE", Len(Trace)>>)
Spec == Init /\ [][Next]_l
=============================================================================
