------------------------------ MODULE TextGen ------------------------------
(***************************************************************************)
(* LLM-guided metrics: each metric is a conversation with the evaluating   *)
(* LLM (which prompt follows from which replies), a requirement on the     *)
(* form of each reply, and a score computed from the replies; around it an *)
(* automaton that repeats the conversation when a reply is malformed.      *)
(*                                                                         *)
(* Texts are tokens.  A reply is [form, keys, n]:                          *)
(*   form "json": keys is a sequence of [k, t, xs]; t = "list" or "other"; *)
(*     an element is [t, s, ks, vs, v]: t = "str" (token s), "obj" (keys   *)
(*     ks, verdict v, a string iff vs = 1) or "other"                      *)
(*   form "int" (n is the first integer), "none" (neither JSON object nor  *)
(*     integer), "error" (the client raised)                               *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC
VARIABLES st
Metrics == {"ac", "ar", "bias", "cp", "cr", "crel", "faith", "hal", "coh", "tox"}
NeedsContext == {"ac", "cp", "cr", "crel", "faith", "hal"}
Tok(c, n) == [i \in 1..n |-> c \o ToString(i)]
P(inp) == Tok("p", inp.np)
Cnt(s, Test(_)) == Len(SelectSeq(s, Test))

-----------------------------------------------------------------------------
(* The form of replies *)
Has(r, k) == \E i \in 1..Len(r.keys) : r.keys[i].k = k
Field(r, k) == r.keys[CHOOSE i \in 1..Len(r.keys) : r.keys[i].k = k]
TextList(r, k) == /\ r.form = "json" /\ Has(r, k) /\ Field(r, k).t = "list"
                  /\ \A i \in 1..Len(Field(r, k).xs) : Field(r, k).xs[i].t = "str"
Verdicts(r, n, allowed) == /\ r.form = "json" /\ Has(r, "verdicts") /\ Field(r, "verdicts").t = "list" /\ Len(Field(r, "verdicts").xs) = n
                           /\ \A i \in 1..n : LET x == Field(r, "verdicts").xs[i] IN
                                x.t = "obj" /\ {x.ks[j] : j \in 1..Len(x.ks)} = {"analysis", "verdict"} /\ x.vs = 1 /\ x.v \in allowed
Lists == {"statements", "claims", "opinions"}
(* a prompt q = [kind, about, n, n2]: n, n2 = how many things are to be judged *)
WellFormed(q, r) ==
  CASE q.kind \in Lists -> TextList(r, q.kind)
    [] q.kind = "ac" -> /\ TextList(r, "TP") /\ TextList(r, "FP") /\ TextList(r, "FN")
                        /\ Len(Field(r, "TP").xs) + Len(Field(r, "FP").xs) = q.n /\ Len(Field(r, "FN").xs) <= q.n2
    [] q.kind = "coh" -> r.form = "int" /\ r.n \in 1..5
    [] q.kind = "ar" -> Verdicts(r, q.n, {"yes", "no", "idk"})
    [] OTHER -> Verdicts(r, q.n, {"yes", "no"})
Texts(r, k) == [i \in 1..Len(Field(r, k).xs) |-> Field(r, k).xs[i].s]
Yes(r) == Cnt(Field(r, "verdicts").xs, LAMBDA x : x.v = "yes")
All(r) == Len(Field(r, "verdicts").xs)
Share(r) == Ratio(Yes(r), All(r))

-----------------------------------------------------------------------------
(* The conversations: the next prompt after the well-formed replies mem, or Done *)
Q(kind, about, n, n2) == [kind |-> kind, about |-> about, n |-> n, n2 |-> n2]
Done == Q("done", <<>>, 0, 0)
G(i) == "g" \o ToString(i)
Prompt(m, inp, mem) ==
  LET k == Len(mem) IN
  CASE m = "ac" -> IF k = 0 THEN Q("statements", <<"r">>, 0, 0)
                   ELSE IF k = 1 + 2 * inp.ng THEN Done
                   ELSE LET i == (k + 1) \div 2 IN
                        IF k % 2 = 1 THEN Q("statements", <<G(i)>>, 0, 0)
                        ELSE LET a == Texts(mem[1], "statements") b == Texts(mem[k], "statements")
                             IN Q("ac", <<"q">> \o a \o b, Len(a), Len(b))
    [] m = "ar" -> IF k = 0 THEN Q("statements", <<"r">>, 0, 0)
                   ELSE IF k = 1 THEN LET a == Texts(mem[1], "statements") IN Q("ar", <<"q">> \o a, Len(a), 0) ELSE Done
    [] m \in {"bias", "tox"} -> IF k = 0 THEN Q("opinions", <<"r">>, 0, 0)
                   ELSE LET a == Texts(mem[1], "opinions") IN IF k = 1 /\ a # <<>> THEN Q(m, a, Len(a), 0) ELSE Done
    [] m = "cp" -> IF inp.np = 0 \/ k = inp.ng THEN Done ELSE Q("cp", <<"q">> \o P(inp) \o <<G(k + 1)>>, inp.np, 0)
    [] m = "cr" -> IF inp.np = 0 \/ k = 2 * inp.ng THEN Done
                   ELSE IF k % 2 = 0 THEN Q("statements", <<G(k \div 2 + 1)>>, 0, 0)
                   ELSE LET a == Texts(mem[k], "statements") IN Q("cr", P(inp) \o a, Len(a), 0)
    [] m = "crel" -> IF inp.np = 0 \/ k = 1 THEN Done ELSE Q("crel", <<"q">> \o P(inp), inp.np, 0)
    [] m = "faith" -> IF inp.np = 0 THEN Done ELSE IF k = 0 THEN Q("claims", <<"r">>, 0, 0)
                   ELSE LET a == Texts(mem[1], "claims") IN IF k = 1 /\ a # <<>> THEN Q("faith", P(inp) \o a, Len(a), 0) ELSE Done
    [] m = "hal" -> IF k = 1 THEN Done ELSE Q("hal", P(inp) \o <<"r">>, inp.np, 0)
    [] m = "coh" -> IF k = 1 THEN Done ELSE Q("coh", <<"q", "r">>, 0, 0)

(* The scores *)
RECURSIVE Best(_)
Best(s) == IF s = <<>> THEN Zero ELSE RMax(s[1], Best(Tail(s)))
AcF1(r) == LET tp == Len(Field(r, "TP").xs) fp == Len(Field(r, "FP").xs) fn == Len(Field(r, "FN").xs) IN F1(tp, fp, fn)
Score(m, inp, mem) ==
  CASE m = "ac" -> Best([i \in 1..inp.ng |-> AcF1(mem[1 + 2 * i])])
    [] m = "ar" -> Share(mem[2])
    [] m \in {"bias", "tox"} -> IF Len(mem) = 1 THEN Zero ELSE Share(mem[2])
    [] m = "cp" -> IF inp.np = 0 /\ inp.ng = 0 THEN One ELSE IF inp.np = 0 \/ inp.ng = 0 THEN Zero
                   ELSE LET rel(j) == \E i \in 1..inp.ng : Field(mem[i], "verdicts").xs[j].v = "yes"
                            hits(j) == Cardinality({x \in 1..j : rel(x)})
                        IN RMean(SelectSeq([j \in 1..inp.np |-> IF rel(j) THEN Ratio(hits(j), j) ELSE <<-1, 1>>], LAMBDA x : x[1] >= 0))
    [] m = "cr" -> IF inp.np = 0 /\ inp.ng = 0 THEN One ELSE IF inp.np = 0 \/ inp.ng = 0 THEN Zero
                   ELSE Best([i \in 1..inp.ng |-> Share(mem[2 * i])])
    [] m = "crel" -> IF inp.np = 0 THEN Zero ELSE Share(mem[1])
    [] m = "faith" -> IF inp.np = 0 THEN Zero ELSE IF Len(mem) = 1 THEN One ELSE Share(mem[2])
    [] m = "hal" -> Share(mem[1])
    [] m = "coh" -> <<mem[1].n, 1>>

-----------------------------------------------------------------------------
(* The automaton. st = [m, inp, r, att, mem, ph]; ph: "ready" (to ask or to finish), "waiting" (for a reply), *)
(* "failed" (all attempts used up), "raised" (the client raised), "refused" (input or client unusable), "idle" *)
Idle == [m |-> "none", inp |-> [ng |-> 0, np |-> 0, ctx |-> 0, client |-> "ok"], r |-> 0, att |-> 0, mem |-> <<>>, ph |-> "idle"]
Refusal(m, inp) == CASE inp.client = "none" -> "ValueError" [] inp.client = "nameless" -> "AttributeError"
                     [] m \in NeedsContext /\ inp.ctx = 0 -> "ValueError" [] m = "hal" /\ inp.np = 0 -> "ValueError" [] OTHER -> "no"
Start(m, inp, r) == /\ st.ph = "idle"
                    /\ st' = [m |-> m, inp |-> inp, r |-> r, att |-> 0, mem |-> <<>>, ph |-> IF Refusal(m, inp) = "no" THEN "ready" ELSE "refused"]
Now == Prompt(st.m, st.inp, st.mem)
CanAsk == st.ph = "ready" /\ Now # Done
Ask == CanAsk /\ st' = [st EXCEPT !.ph = "waiting"]
Reply(r) == /\ st.ph = "waiting"
            /\ st' = IF r.form = "error" THEN [st EXCEPT !.ph = "raised"]
                     ELSE IF WellFormed(Now, r) THEN [st EXCEPT !.mem = Append(@, r), !.ph = "ready"]
                     ELSE IF st.att < st.r THEN [st EXCEPT !.att = @ + 1, !.mem = <<>>, !.ph = "ready"]
                     ELSE [st EXCEPT !.ph = "failed"]
Outcome == CASE st.ph = "ready" -> "metric" [] st.ph = "failed" -> "error" [] st.ph = "raised" -> "client" [] st.ph = "refused" -> Refusal(st.m, st.inp)
            [] OTHER -> "unfinished"
Finished == (st.ph = "ready" /\ Now = Done) \/ st.ph \in {"failed", "raised", "refused"}
Finish == Finished /\ st' = Idle

-----------------------------------------------------------------------------
(* Building replies *)
E(t, s, ks, vs, v) == [t |-> t, s |-> s, ks |-> ks, vs |-> vs, v |-> v]
Str(s) == E("str", s, <<>>, 0, "")
Other == E("other", "", <<>>, 0, "")
Obj(v) == E("obj", "", <<"analysis", "verdict">>, 1, v)
R(form, keys, n) == [form |-> form, keys |-> keys, n |-> n]
KV(k, xs) == [k |-> k, t |-> "list", xs |-> xs]
Json(ks) == R("json", ks, 0)
=============================================================================
