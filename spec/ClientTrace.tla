---------------------------- MODULE ClientTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of clients.  Events:                       *)
(*   new [kind, key_ok]    bad_new [out]: seed together with retries       *)
(*   call [h, msgs]   eval [h, r]   serve [a, sent_ok]                     *)
(*   ret [out, same, pt, ct, par_ok]: same = 1 if a returned text is the   *)
(*   one that the service answered                                         *)
(***************************************************************************)
EXTENDS Client, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lost
Ev == Trace[l]
Clause(c, ok) == IF ok THEN {} ELSE {"C24." \o c}
Report(b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
DoReset == Ev.e = "reset" /\ ws' = <<>> /\ op' = None /\ lost' = FALSE
DoNew == Ev.e = "new" /\ New(Ev.kind) /\ UNCHANGED lost /\ Report(Clause("key", Ev.key_ok = 1))
DoBadNew == Ev.e = "bad_new" /\ UNCHANGED <<ws, op, lost>> /\ Report(Clause("seed", Ev.out = Ev.want))
DoCall == Ev.e = "call" /\ Begin(Ev.h, Ev.msgs) /\ lost' = FALSE
DoEval == Ev.e = "eval" /\ BeginEval(Ev.h, Ev.r) /\ lost' = FALSE
DoServe == /\ Ev.e = "serve"
           /\ IF lost THEN UNCHANGED <<ws, op, lost>>
              ELSE IF op.ph = "ready" THEN Serve(Ev.a) /\ UNCHANGED lost /\ Report(Clause("request", Ev.sent_ok = 1))
              ELSE Report(Clause("requests", FALSE)) /\ lost' = TRUE /\ UNCHANGED <<ws, op>>
Shown == CASE op.out \in {"invalid", "refused"} -> {"refused"} [] op.out = "int" \/ op.out = "junk" -> {"text"} [] OTHER -> {op.out}
DoRet == /\ Ev.e = "ret" /\ op' = None /\ lost' = FALSE /\ UNCHANGED ws
         /\ IF lost THEN TRUE
            ELSE Report(Clause("outcome", op.ph = "done" /\ Ev.out \in Shown)
                        \cup Clause("text", Ev.out # "text" \/ Ev.same = 1)
                        \cup Clause("tokens", Ev.pt = [i \in 1..Len(ws) |-> ws[i].pt] /\ Ev.ct = [i \in 1..Len(ws) |-> ws[i].ct])
                        \cup Clause("parameters", Ev.par_ok = 1)
                        \cup Clause("messages", Ev.kept = 1))
DoExc == Ev.e = "exc" /\ UNCHANGED <<ws, op, lost>> /\ Report({Ev.p \o ".exception"})
Init == ws = <<>> /\ op = None /\ l = 1 /\ lost = FALSE
Next == /\ l' = l + 1
        /\ \/ l <= Len(Trace) /\ (DoReset \/ DoNew \/ DoBadNew \/ DoCall \/ DoEval \/ DoServe \/ DoRet \/ DoExc)
           \/ l = Len(Trace) + 1 /\ UNCHANGED <<ws, op, lost>> /\ PrintT(<<"DONE", Len(Trace)>>)
Spec == Init /\ [][Next]_<<ws, op, l, lost>>
=============================================================================
