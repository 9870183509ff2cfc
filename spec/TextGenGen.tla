----------------------------- MODULE TextGenGen -----------------------------
(* Generates sessions of metric computations on one evaluator: inputs, retries and the replies of the LLM (TLC -simulate). *)
EXTENDS TextGen, Json
CONSTANTS Depth, BadRate, ErrRate, MaxR, OddRate     \* rates in percent
VARIABLES tick, hist
Some(S) == RandomElement(S)
Pct(p) == Some(1..100) <= p
(* one random element per position *)
RECURSIVE Fill(_, _)
Fill(n, vs) == IF n = 0 THEN <<>> ELSE <<Obj(Some(vs))>> \o Fill(n - 1, vs)
(* texts, now and then the same one several times *)
L(k, n) == [i \in 1..n |-> Str("s" \o ToString(tick) \o k \o ToString(IF Pct(15) THEN Some(1..i) ELSE i))]
Allowed(q) == IF q.kind = "ar" THEN {"yes", "no", "idk"} ELSE {"yes", "no"}
(* verdicts lean towards yes or no per reply, so that all fractions occur *)
Pool(q) == Some({Allowed(q), {"yes"}, {"no"}, Allowed(q)})
AcKeys(q, tp, fn) == <<KV("TP", L("t", tp)), KV("FP", L("f", q.n - tp)), KV("FN", L("n", fn))>>
Good(q) == CASE q.kind \in Lists -> Json(<<KV(q.kind, L("x", Some({0, 1, 2, 3, 4, 5, 7})))>>)
             [] q.kind = "coh" -> R("int", <<>>, Some(1..5))
             [] q.kind = "ac" -> Json(AcKeys(q, Some(0..q.n), Some(0..q.n2)))
             [] OTHER -> Json(<<KV("verdicts", Fill(q.n, Pool(q)))>>)
OddObj == {E("obj", "", <<"verdict">>, 1, "yes"), E("obj", "", <<"analysis">>, 0, ""), E("obj", "", <<"analysis", "reason", "verdict">>, 1, "yes"),
           E("obj", "", <<"analysis", "verdict">>, 0, ""), E("obj", "", <<>>, 0, ""), E("obj", "", <<"analysis", "Verdict">>, 0, ""), Other, Str("s0"),
           Obj("maybe"), Obj("Yes"), Obj("NO"), Obj(""), Obj("yes "), Obj("idk"), Obj("y"), Obj("yesno")}
Without(s, k) == SelectSeq(s, LAMBDA x : x.k # k)
Put(s, i, x) == [s EXCEPT ![i] = x]
NotList(k) == [k |-> k, t |-> "other", xs |-> <<>>]
(* mostly malformed; WellFormed decides *)
Odd(q) ==
  CASE q.kind \in Lists -> Some({R("none", <<>>, 0), Json(<<>>), Json(<<NotList(q.kind)>>), Json(<<KV("verdicts", L("x", 2))>>),
                                 Json(<<KV(q.kind, <<Other>>)>>), Json(<<KV(q.kind, L("x", 2) \o <<Other>>)>>), Json(<<KV(q.kind, <<Obj("yes")>> \o L("x", 1))>>),
                                 Json(<<KV("extra", <<Other>>), KV(q.kind, L("x", 2))>>)})
    [] q.kind = "coh" -> Some({R("none", <<>>, 0)} \cup {R("int", <<>>, n) : n \in {-5, -1, 0, 6, 7, 10, 45, 100, 12345}})
    [] q.kind = "ac" -> Some({R("none", <<>>, 0), Json(Without(AcKeys(q, q.n, 0), "TP")), Json(Without(AcKeys(q, 0, q.n2), "FP")), Json(Without(AcKeys(q, 0, 0), "FN")),
                              Json(<<KV("TP", L("t", q.n)), KV("FP", L("f", 1)), KV("FN", <<>>)>>), Json(<<KV("TP", L("t", q.n + 1)), KV("FP", <<>>), KV("FN", <<>>)>>),
                              Json(<<KV("TP", <<>>), KV("FP", L("f", q.n)), KV("FN", L("n", q.n2 + 1))>>),
                              Json(<<KV("TP", <<Other>>), KV("FP", L("f", q.n - 1)), KV("FN", <<>>)>>), Json(<<KV("TP", L("t", q.n)), KV("FP", <<>>), KV("FN", <<Other>>)>>),
                              Json(<<KV("TP", L("t", q.n)), KV("FP", <<>>), NotList("FN")>>), Json(<<KV("TP", L("t", q.n)), NotList("FP"), KV("FN", <<>>)>>)}
                             \cup (IF q.n > 0 THEN {Json(<<KV("TP", L("t", q.n - 1)), KV("FP", <<>>), KV("FN", <<>>)>>)} ELSE {}))
    [] OTHER -> Some({R("none", <<>>, 0), Json(<<>>), Json(<<NotList("verdicts")>>), Json(<<KV("verdict", Fill(q.n, {"yes"}))>>),
                      Json(<<KV("verdicts", Fill(q.n + 1, {"yes", "no"}))>>), Json(<<KV("extra", <<Other>>), KV("verdicts", Fill(q.n, {"yes", "no"}))>>)}
                     \cup (IF q.n > 0 THEN {Json(<<KV("verdicts", Fill(q.n - 1, {"yes", "no"}))>>), Json(<<KV("verdicts", <<>>)>>)}
                                           \cup {Json(<<KV("verdicts", Put(Fill(q.n, {"yes", "no"}), Some(1..q.n), x))>>) : x \in {Some(OddObj), Some(OddObj), Some(OddObj), Some(OddObj)}}
                           ELSE {}))
DoStart == \E m \in {Some(Metrics)}, c \in {IF Pct(OddRate) THEN 0 ELSE 1}, k \in {IF Pct(OddRate) THEN Some({"none", "nameless"}) ELSE "ok"}, r \in {Some(0..MaxR)} :
           \E inp \in {[ng |-> c * Some({0, 1, 2, 3, 4, 5}), np |-> c * Some({0, 1, 2, 3, 4, 6}), ctx |-> c, client |-> k]} :
           Start(m, inp, r) /\ hist' = Append(hist, [op |-> "call", m |-> m, inp |-> inp, r |-> r])
DoReply == \E r \in {IF Pct(ErrRate) THEN R("error", <<>>, 0) ELSE IF Pct(BadRate) THEN Odd(Now) ELSE Good(Now)} :
           Reply(r) /\ hist' = Append(hist, [op |-> "reply", reply |-> r])
Init == st = Idle /\ tick = 0 /\ hist = <<>>
Step == CASE st.ph = "idle" -> DoStart
          [] st.ph = "waiting" -> DoReply
          [] Finished -> Finish /\ UNCHANGED hist
          [] OTHER -> Ask /\ UNCHANGED hist
Next == /\ tick' = tick + 1
        /\ IF tick < Depth THEN Step ELSE tick = Depth /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED <<st, hist>>
Spec == Init /\ [][Next]_<<st, tick, hist>>
=============================================================================
