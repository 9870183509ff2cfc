----------------------------- MODULE ResultTrace -----------------------------
(***************************************************************************)
(* Validates recorded results against the documented forms (C26).          *)
(* Ev: task, q (query), full (1: a complete result), labels, dom, ms: the  *)
(* metrics as [type, value, params, json: same tree after JSON, under].    *)
(***************************************************************************)
EXTENDS Result, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Clause(c, ok) == IF ok THEN {} ELSE {Ev.p \o "." \o c}
Report(b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
Env == [labels |-> ToSet(Ev.labels), dom |-> Ev.dom]
M(i) == Ev.ms[i]
Is == 1..Len(Ev.ms)
EntryOf(i) == {e \in (IF M(i).type = "Error" THEN {ErrorForm} ELSE Entries(Ev.task, Ev.q)) : e[2] = M(i).type}
(* what identifies a metric within a result *)
Ident(i) == <<M(i).type, M(i).params, IF M(i).type = "Examples" THEN M(i).value.xs[1] ELSE M(i).params>>
DoRes == /\ Ev.e = "res"
         /\ Report(Clause("plain", \A i \in Is : Plain(M(i).value) /\ Plain(M(i).params))
                   \cup Clause("json", \A i \in Is : M(i).json = <<M(i).value, M(i).params>>)
                   \cup Clause("type", \A i \in Is : EntryOf(i) # {} /\ M(i).under \in {"", M(i).type})
                   \cup Clause("value", \A i \in Is : \A e \in EntryOf(i) : Fits(e[3], M(i).value, Env))
                   \cup Clause("parameters", \A i \in Is : \A e \in EntryOf(i) : Fits(Dict(e[4]), M(i).params, Env))
                   \cup Clause("once", Cardinality({Ident(i) : i \in Is}) = Len(Ev.ms))
                   \cup Clause("complete", Ev.full = 1 => \A e \in Entries(Ev.task, Ev.q) : Cardinality({i \in Is : M(i).type = e[2]}) = Count(e[4], Env)))
DoMake == /\ Ev.e = "make"
          /\ Report(Clause("construct", Ev.r = (IF Makeable(Ev.ty, Ev.v, Ev.ps) THEN "ok" ELSE "refused"))
                    \cup Clause("construct_keeps", Ev.r = "ok" => Ev.got = <<Ev.ty, Ev.v, Ev.ps>>))
DoExc == Ev.e = "exc" /\ Report({Ev.p \o ".exception"})
Init == l = 1
Next == /\ l' = l + 1
        /\ \/ l <= Len(Trace) /\ (DoRes \/ DoMake \/ DoExc)
           \/ l = Len(Trace) + 1 /\ PrintT(<<"DONE", Len(Trace)>>)
Spec == Init /\ [][Next]_l
==============================================================================
