------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The clients of LLM services (C24): what is sent, what is made of the    *)
(* answers, what is counted; and evaluators that use them.                 *)
(* ws: the clients made so far, with the tokens they have counted.         *)
(* op: the operation under way.  A "call" hands messages to a client, an   *)
(* "eval" is a metric computation that needs one usable text (an integer)  *)
(* and makes up to 1 + r attempts.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
VARIABLES ws, op
Kinds == {"openai", "mistral"}
Client(k) == [kind |-> k, pt |-> 0, ct |-> 0]
None == [ph |-> "none", h |-> 0, t |-> "", r |-> 0, att |-> 0, out |-> ""]

(* a message is "ok" or says what is wrong with it *)
Valid(ms) == ms.list = 1 /\ \A i \in 1..Len(ms.ms) : ms.ms[i] = "ok"

(* A response [t, c, fin, u, p, q]: t = "error" (the service fails), "none" (no response), "nochoices", "nomessage", "msg";   *)
(* c = content of the message: "none", "empty", "int" (a usable text), "junk", "parts" (not a text); fin = finish reason;   *)
(* u = 1 if it reports p prompt and q completion tokens.                                                                    *)
Cut(k, a) == a.fin = "length" \/ (k = "openai" /\ a.fin = "content_filter")
Answer(k, a) == CASE a.t = "error" -> "service"
                  [] a.t # "msg" -> "empty"
                  [] Cut(k, a) -> "refused"
                  [] a.c \in {"none", "empty"} -> "empty"
                  [] a.c = "parts" -> "refused"
                  [] OTHER -> a.c
Counted(w, a) == IF w.kind = "openai" /\ a.t # "error" /\ a.u = 1 THEN [w EXCEPT !.pt = @ + a.p, !.ct = @ + a.q] ELSE w

New(k) == ws' = Append(ws, Client(k)) /\ UNCHANGED op
Begin(h, ms) == /\ op.ph \in {"none"} /\ h \in 1..Len(ws) /\ UNCHANGED ws
                /\ op' = [ph |-> IF Valid(ms) THEN "ready" ELSE "done", h |-> h, t |-> "call", r |-> 0, att |-> 0, out |-> IF Valid(ms) THEN "" ELSE "invalid"]
BeginEval(h, r) == /\ op.ph = "none" /\ h \in 1..Len(ws) /\ UNCHANGED ws
                   /\ op' = [ph |-> "ready", h |-> h, t |-> "eval", r |-> r, att |-> 0, out |-> ""]
Done(o) == [op EXCEPT !.ph = "done", !.out = o]
(* the service answers the one request that is made per attempt *)
Serve(a) == /\ op.ph = "ready"
            /\ ws' = [ws EXCEPT ![op.h] = Counted(@, a)]
            /\ LET x == Answer(ws[op.h].kind, a) IN
               op' = IF op.t = "call" \/ x \in {"service", "refused"} THEN Done(x)
                     ELSE IF x = "int" THEN Done("metric")
                     ELSE IF op.att = op.r THEN Done("error") ELSE [op EXCEPT !.att = @ + 1]
Return == op.ph = "done" /\ op' = None /\ UNCHANGED ws
=============================================================================
