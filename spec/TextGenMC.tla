----------------------------- MODULE TextGenMC ------------------------------
(* Every conversation over small inputs and replies, for every number of retries. *)
EXTENDS TextGen
CONSTANTS MaxN, MaxR, Ms
VARIABLES asks, oks, bads           \* prompts made; history: replies of the current attempt that were well formed; malformed replies so far
L(c, n) == [i \in 1..n |-> Str(c \o ToString(i))]
VSeqs(n, vs) == {[i \in 1..n |-> Obj(f[i])] : f \in [1..n -> vs]}
Replies(q) ==
  {R("none", <<>>, 0), R("error", <<>>, 0), Json(<<>>)} \cup
  (CASE q.kind \in Lists -> {Json(<<KV(q.kind, L("s", n))>>) : n \in 0..MaxN} \cup {Json(<<KV(q.kind, <<Other>>)>>)}
     [] q.kind = "ac" -> {Json(<<KV("TP", L("a", a)), KV("FP", L("b", b)), KV("FN", L("c", c))>>) : a \in 0..MaxN, b \in 0..MaxN, c \in 0..MaxN}
     [] q.kind = "coh" -> {R("int", <<>>, n) : n \in -1..7}
     [] OTHER -> {Json(<<KV("verdicts", vs)>>) : vs \in UNION {VSeqs(n, {"yes", "no", "idk"}) : n \in 0..(IF q.n > MaxN THEN MaxN ELSE q.n)}})
Init == st = Idle /\ asks = 0 /\ oks = 0 /\ bads = 0
Begin == /\ st.ph = "idle" /\ asks = 0
         /\ \E m \in Ms, ng \in 0..2, np \in 0..2, r \in 0..MaxR, c \in {0, 1}, k \in {"ok", "none", "nameless"} :
              Start(m, [ng |-> IF c = 0 THEN 0 ELSE ng, np |-> IF c = 0 THEN 0 ELSE np, ctx |-> c, client |-> k], r)
         /\ UNCHANGED <<asks, oks, bads>>
Talk == \/ Ask /\ asks' = asks + 1 /\ UNCHANGED <<oks, bads>>
        \/ /\ st.ph = "waiting" /\ UNCHANGED asks
           /\ \E r \in Replies(Now) : /\ Reply(r)
                                      /\ IF r.form # "error" /\ WellFormed(Now, r) THEN oks' = oks + 1 /\ UNCHANGED bads
                                         ELSE oks' = 0 /\ bads' = bads + (IF r.form = "error" THEN 0 ELSE 1)
Next == Begin \/ Talk
Spec == Init /\ [][Next]_<<st, asks, oks, bads>> /\ WF_<<st, asks, oks, bads>>(Talk)
(* what users rely on *)
Scored == st.ph = "ready" /\ Now = Done
InRange == Scored => LET v == Score(st.m, st.inp, st.mem) IN IF st.m = "coh" THEN v[2] = 1 /\ v[1] \in 1..5 ELSE RLeq(Zero, v) /\ RLeq(v, One)
FromScratch == st.ph \in {"ready", "waiting"} => Len(st.mem) = oks
AttemptsBounded == st.att <= st.r /\ bads <= st.r + 1
ErrorOnlyIfAllFailed == (st.ph = "failed") <=> (bads = st.r + 1)
AttemptsAreFailures == st.ph \in {"ready", "waiting"} => bads = st.att
RefusedUnasked == st.ph = "refused" => asks = 0
MaxCalls == 1 + 2 * st.inp.ng
CallsBounded == st.ph # "idle" => asks <= (st.r + 1) * (IF MaxCalls > 2 THEN MaxCalls ELSE 2)
Ends == (st.ph = "ready") ~> (Finished)
=============================================================================
