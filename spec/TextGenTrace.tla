---------------------------- MODULE TextGenTrace ----------------------------
(***************************************************************************)
(* Validates recorded metric computations.  Events:                        *)
(*   call   [m, inp, r]      ask [kind, about, sys, whole]  reply [reply]  *)
(*   result [out, type_ok, v, par_ok, err]                                 *)
(*   all [got, want]: compute_all and the single computations, by type     *)
(* Kind "?" means that the wording of the prompt was not recognised.       *)
(***************************************************************************)
EXTENDS TextGen, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lost          \* lost: the computation has left the specification, the rest of it is not judged
Ev == Trace[l]
Report(b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
Clause(c, ok) == IF ok THEN {} ELSE {c}
DoCall == /\ Ev.e = "call" /\ lost' = FALSE
          /\ st' = [m |-> Ev.m, inp |-> Ev.inp, r |-> Ev.r, att |-> 0, mem |-> <<>>, ph |-> IF Refusal(Ev.m, Ev.inp) = "no" THEN "ready" ELSE "refused"]
(* a prompt that the specification does not expect here *)
First == Prompt(st.m, st.inp, <<>>)
AfterBad == (st.att > 0 /\ st.mem = <<>>) \/ st.ph = "failed"
Again == Ev.about = First.about /\ Ev.kind \in {First.kind, "?"}       \* the conversation starts (again)
Blame == CASE st.ph = "refused" -> {"C18.attempts", "C20.refused"}
           [] st.ph = "raised" -> {"C18.client_error"}
           [] AfterBad /\ Again -> {"C18.attempts"}                      \* more attempts than configured
           [] AfterBad -> {"C18.restart", "C19.reply"}                   \* a malformed reply was used, or the attempt not started afresh
           [] Again /\ st.mem # <<>> -> {"C18.attempts", "C19.reply", "C20.prompt"}   \* a well-formed reply was not used
           [] OTHER -> {"C20.prompt"}
DoAsk == /\ Ev.e = "ask"
         /\ IF lost THEN UNCHANGED <<st, lost>>
            ELSE IF CanAsk /\ Ev.kind \in {Now.kind, "?"} /\ Ev.about = Now.about /\ Ev.sys = 1
                 THEN Ask /\ UNCHANGED lost /\ Report(Clause("C20.prompt_shortened", Ev.whole = 1))
                 ELSE Report(Blame) /\ lost' = TRUE /\ UNCHANGED st
DoReply == /\ Ev.e = "reply" /\ UNCHANGED lost /\ IF lost THEN UNCHANGED st ELSE Reply(Ev.reply)
(* what the code made of the replies *)
Expect == IF Finished THEN Outcome ELSE "unfinished"
Same == CASE Expect = "metric" -> Ev.out = "metric" [] Expect = "error" -> Ev.out = "error" [] OTHER -> Ev.out = Expect
(* the last reply was malformed but was accepted, or the reverse *)
Misread == \/ st.ph \in {"failed"} /\ Ev.out = "metric"
           \/ st.ph = "ready" /\ Now # Done /\ Ev.out # "client"
           \/ st.ph = "ready" /\ Now = Done /\ Ev.out = "error"
Alien == Ev.out \notin {"metric", "error", "client", "ValueError", "AttributeError"} \/ (Ev.out \in {"ValueError", "AttributeError"} /\ st.ph # "refused")
DoResult == /\ Ev.e = "result" /\ lost' = FALSE /\ st' = Idle
            /\ IF lost THEN TRUE
               ELSE Report(Clause("C18.outcome", Same)
                           \cup Clause("C18.error_metric", ~(Same /\ Expect = "error") \/ (Ev.err_ok = 1 /\ Ev.par_ok = 1))
                           \cup Clause("C18.client_error", ~(Expect = "client") \/ Same)
                           \cup Clause("C19.reply", ~Misread /\ ~Alien)
                           \cup Clause("C19.range", Ev.out # "metric" \/ (IF st.m = "coh" THEN Ev.v[2] = 1 /\ Ev.v[1] \in 1..5
                                                                           ELSE Ev.v[2] > 0 /\ Ev.v[1] >= 0 /\ Ev.v[1] <= Ev.v[2]))
                           \cup Clause("C20.refusal", (st.ph = "refused") => Same)
                           \cup Clause("C20.score", ~(Same /\ Expect = "metric") \/ Ev.v = Score(st.m, st.inp, st.mem))
                           \cup Clause("C20.value_missing", (Expect # "metric") \/ Same)
                           \cup Clause("C20.metric", ~(Same /\ Expect = "metric") \/ (Ev.type_ok = 1 /\ Ev.par_ok = 1)))
(* compute_all against the single metrics *)
DoAll == Ev.e = "all" /\ UNCHANGED <<st, lost>> /\ Report(Clause("C20.all", Ev.got = Ev.want))
DoExc == Ev.e = "exc" /\ UNCHANGED <<st, lost>> /\ Report({Ev.p \o ".exception"})
Init == st = Idle /\ l = 1 /\ lost = FALSE
Next == /\ l' = l + 1
        /\ \/ l <= Len(Trace) /\ (DoCall \/ DoAsk \/ DoReply \/ DoResult \/ DoAll \/ DoExc)
           \/ l = Len(Trace) + 1 /\ UNCHANGED <<st, lost>> /\ PrintT(<<"DONE", Len(Trace)>>)
Spec == Init /\ [][Next]_<<st, l, lost>>
=============================================================================
