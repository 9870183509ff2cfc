------------------------------ MODULE ClientMC ------------------------------
(* All short histories of up to MaxW clients. *)
EXTENDS Client
CONSTANTS MaxW, MaxS, MaxR
VARIABLES log            \* history: <<client, answer>> of every request that was served
Shapes == {[t |-> "error", c |-> "none", fin |-> "stop", u |-> 0, p |-> 0, q |-> 0]}
          \cup {[t |-> t, c |-> "none", fin |-> "stop", u |-> 1, p |-> 2, q |-> 0] : t \in {"none", "nochoices", "nomessage"}}
          \cup {[t |-> "msg", c |-> c, fin |-> f, u |-> 1, p |-> 1, q |-> 3] : c \in {"none", "empty", "int", "junk", "parts"}, f \in {"stop", "length", "content_filter"}}
          \cup {[t |-> "msg", c |-> "int", fin |-> f, u |-> 0, p |-> 1, q |-> 3] : f \in {"stop", "tool_calls"}}
For(k, a) == IF k = "openai" THEN a.t \in {"msg", "error"} /\ a.c # "parts" ELSE a.fin # "content_filter" /\ ~(a.c = "none" /\ a.fin = "length")
Msgs == {[list |-> l, ms |-> m] : l \in {0, 1}, m \in {<<"ok">>, <<"ok", "norole">>}}
Init == ws = <<>> /\ op = None /\ log = <<>>
Next == \/ Len(ws) < MaxW /\ op = None /\ (\E k \in Kinds : New(k)) /\ UNCHANGED log
        \/ Len(log) < MaxS /\ UNCHANGED log /\ \E h \in 1..Len(ws) : \/ \E ms \in Msgs : Begin(h, ms)
                                                                     \/ \E r \in 0..MaxR : BeginEval(h, r)
        \/ op.ph = "ready" /\ \E a \in Shapes : For(ws[op.h].kind, a) /\ Serve(a) /\ log' = Append(log, <<op.h, a>>)
        \/ Return /\ UNCHANGED log
Spec == Init /\ [][Next]_<<ws, op, log>> /\ WF_<<ws, op, log>>(op.ph = "ready" /\ Next)
RECURSIVE Total(_, _, _)
Total(s, h, f) == IF s = <<>> THEN 0 ELSE (IF s[1][1] = h /\ s[1][2].t # "error" /\ s[1][2].u = 1 THEN s[1][2][f] ELSE 0) + Total(Tail(s), h, f)
(* what users rely on *)
TotalsAreSums == \A h \in 1..Len(ws) : IF ws[h].kind = "openai" THEN ws[h].pt = Total(log, h, "p") /\ ws[h].ct = Total(log, h, "q") ELSE ws[h].pt = 0 /\ ws[h].ct = 0
Last == log[Len(log)][2]
NothingCut == op.out \in {"int", "junk", "metric"} => Last.fin # "length" /\ (ws[op.h].kind = "openai" => Last.fin # "content_filter") /\ Last.c \in {"int", "junk"}
OnlyTexts == op.out = "metric" => Last.c = "int"
InvalidUnsent == op.out = "invalid" => op.att = 0
AttemptsBounded == op.att <= op.r
ErrorOnlyAtLast == op.out = "error" => op.att = op.r
CallIsOneRequest == op.t = "call" => op.att = 0
Served == (op.ph = "ready") ~> (op.ph = "done")
=============================================================================
