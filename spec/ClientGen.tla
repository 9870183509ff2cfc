----------------------------- MODULE ClientGen ------------------------------
(* Random histories of clients, calls, evaluations and answers (TLC -simulate). *)
EXTENDS Client, Json
CONSTANTS Depth
VARIABLES tick, hist
Some(S) == RandomElement(S)
Pct(p) == Some(1..100) <= p
Bad == {"nodict", "norole", "nocontent", "badrole", "badcontent"}
Msg(bad) == IF Pct(bad) THEN Some(Bad) ELSE "ok"
Msgs(bad) == [list |-> IF Pct(bad) THEN 0 ELSE 1, ms |-> LET n == Some({0, 1, 1, 2, 2, 3, 4}) IN IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<Msg(bad)>> ELSE IF n = 2 THEN <<Msg(bad), Msg(bad)>>
                                                                                   ELSE IF n = 3 THEN <<Msg(bad), Msg(bad), Msg(bad)>> ELSE <<"ok", "ok", "ok", Msg(60)>>]
Fin(k) == IF Pct(55) THEN "stop" ELSE Some({"length", "tool_calls"} \cup IF k = "openai" THEN {"content_filter", "function_call"} ELSE {"model_length", "error"})
Raw(k) == LET t == IF Pct(8) THEN "error" ELSE IF k = "mistral" /\ Pct(20) THEN Some({"none", "nochoices", "nomessage"}) ELSE "msg"
          IN [t |-> t, c |-> IF t # "msg" THEN "none" ELSE IF Pct(40) THEN "int" ELSE Some({"none", "empty", "junk", "junk"} \cup IF k = "mistral" THEN {"parts"} ELSE {}),
              fin |-> Fin(k), u |-> IF Pct(70) THEN 1 ELSE 0, p |-> Some({0, 1, 7, 100, 4096}), q |-> Some({0, 1, 5, 250})]
(* a Mistral answer that has no content and was cut off is left open *)
Open(k, a) == k = "mistral" /\ a.c = "none" /\ a.fin = "length"
DoNew == \E k \in {Some(Kinds)} : New(k) /\ hist' = Append(hist, [op |-> "new", kind |-> k])
DoCall == \E h \in {Some(1..Len(ws))}, ms \in {Msgs(Some({0, 0, 25}))} : Begin(h, ms) /\ hist' = Append(hist, [op |-> "call", h |-> h, msgs |-> ms])
DoEval == \E h \in {Some(1..Len(ws))}, r \in {Some({0, 1, 2, 3})} : BeginEval(h, r) /\ hist' = Append(hist, [op |-> "eval", h |-> h, r |-> r])
DoServe == LET k == ws[op.h].kind IN
           \E a \in {Raw(k)} : \E b \in {IF Open(k, a) THEN [a EXCEPT !.fin = "stop"] ELSE a} : Serve(b) /\ hist' = Append(hist, [op |-> "serve", a |-> b])
Init == ws = <<>> /\ op = None /\ tick = 0 /\ hist = <<>>
Step == CASE op.ph = "ready" -> DoServe
          [] op.ph = "done" -> Return /\ UNCHANGED hist
          [] OTHER -> \E x \in {Some(1..10)} : IF ws = <<>> \/ (x = 1 /\ Len(ws) < 4) THEN DoNew ELSE IF x < 6 THEN DoCall ELSE DoEval
Next == /\ tick' = tick + 1
        /\ IF tick < Depth THEN Step ELSE tick = Depth /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED <<ws, op, hist>>
Spec == Init /\ [][Next]_<<ws, op, tick, hist>>
=============================================================================
