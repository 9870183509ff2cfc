---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validates recorded sessions of loaders and evaluators of one task.      *)
(* Every event has r (what happened: ok, empty, fails, ...) and dirty (the *)
(* paths whose content on disk changed).  memo remembers, per value and    *)
(* question, the first answer given; every later answer has to agree.      *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, memo, void, once
tv == <<svars, l, memo, void, once>>
Ev == Trace[l]
Clause(c, ok) == IF ok THEN {} ELSE {Ev.p \o "." \o c}
Report(b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
Touched(S) == Clause(Ev.e \o "_changes_disk", ToSet(Ev.dirty) \subseteq S) \cup Clause(Ev.e \o "_destroys_foreign_files", Ev.lost = <<>>)
Keep == UNCHANGED <<memo, void, once>>
(* "fails" stands for any exception *)
Is(r) == IF r = "fails" THEN Ev.r # "ok" ELSE Ev.r = r

DoStart == /\ Ev.e = "start" /\ void' = ToSet(Ev.void) /\ once' = (Ev.once = 1) /\ memo' = <<>>
           /\ disk' = [p \in 1..Ev.np |-> Free] /\ ld' = <<>> /\ ev' = <<>>
DoNew == /\ Ev.e = "new" /\ Keep
         /\ Report(Clause("create", \E w \in NewResults(Ev.path, Ev.fine = 1) : Is(w)) \cup Touched(IF Ev.r = "ok" THEN {Ev.path} ELSE {}))
         /\ IF Ev.r = "ok" THEN New(Ev.path) ELSE Skip
(* datums before the first bad one are accepted *)
DoAdd == /\ Ev.e = "add" /\ Keep
         /\ LET got == IF Ev.bad = 0 THEN Ev.ids ELSE SubSeq(Ev.ids, 1, Ev.bad - 1) IN
            /\ Report(Clause("add", (Ev.r = "ok") = (Ev.bad = 0)) \cup Touched({ld[Ev.h].path}))
            /\ Add(Ev.h, ToSet(got) \ void)
DoLate == /\ Ev.e = "late" /\ Keep /\ Report(Clause("add_after_finalize", Is(LateResult(Ev.h, once))) \cup Touched({})) /\ Skip
DoFin == /\ Ev.e = "fin" /\ Keep
         /\ LET want == FinResult(Ev.h, once) IN
            /\ Report(Clause("finalize", Is(want)) \cup Touched(IF want = "ok" /\ ld[Ev.h].st = "open" THEN {ld[Ev.h].path} ELSE {}))
            /\ IF Ev.r = "ok" THEN Finalize(Ev.h) ELSE Skip
DoLoad == /\ Ev.e = "load" /\ Keep
          /\ Report(Clause("load", Is(LoadResult(Ev.path))) \cup Touched({}))
          /\ IF Ev.r = "ok" /\ LoadResult(Ev.path) = "ok" THEN Load(Ev.path) ELSE Skip
DoCopy == Ev.e = "copy" /\ Keep /\ (IF Ev.whole = 1 THEN Copy(Ev.path, Ev.to) ELSE CopyPart(Ev.path, Ev.to))
DoBadq == Ev.e = "badq" /\ Keep /\ Report(Clause("query_refused", Ev.r = QueryResult(0)) \cup Touched({})) /\ Skip
DoPlain == Ev.e = "plain" /\ Keep /\ (IF Ev.dir = 0 THEN PlainFile(Ev.path) ELSE ForeignDir(Ev.path))
(* an empty result is remembered as the answer to the question "anything left?" of the restricted value *)
DoFilter == /\ Ev.e = "filter" /\ UNCHANGED <<void, once>>
            /\ LET want == FilterResults(Ev.h, Ev.path)
                   key == <<Narrow(ev[Ev.h].v, Ev.f), "left">>
                   legal == {"ok", "empty"} \subseteq want /\ Ev.r \in {"ok", "empty"}
               IN /\ Report(Clause("filter", \E w \in want : Is(w))
                            \cup Clause("filter_result", ~legal \/ key \notin DOMAIN memo \/ memo[key] = Ev.r)
                            \cup Touched(IF legal /\ FilterTarget(Ev.h, Ev.path) # Mem THEN {Ev.path} ELSE {}))
                  /\ memo' = IF legal /\ key \notin DOMAIN memo THEN memo @@ (key :> Ev.r) ELSE memo
                  /\ CASE legal /\ Ev.r = "ok" -> FilterOk(Ev.h, Ev.f, Ev.path)
                       [] legal /\ Ev.r = "empty" -> FilterEmpty(Ev.h, Ev.path)
                       [] OTHER -> Skip
(* an answer: parts [key, txt, num], each about one question; num are values compared up to rounding *)
AbsI(x) == IF x < 0 THEN -x ELSE x
Agree(a, b) == a.txt = b.txt /\ Len(a.num) = Len(b.num) /\ \A i \in 1..Len(a.num) : AbsI(a.num[i] - b.num[i]) <= 2
DoObs == /\ Ev.e = "obs" /\ UNCHANGED <<svars, void, once>>
         /\ LET v == Narrow(ev[Ev.h].v, OnDatums(Ev.f))
                K(i) == <<v, Ev.parts[i].key>>
                bad == {Ev.parts[i].key : i \in {i \in 1..Len(Ev.parts) : K(i) \in DOMAIN memo /\ ~Agree(memo[K(i)], Ev.parts[i])}}
                new == {i \in 1..Len(Ev.parts) : K(i) \notin DOMAIN memo}
                firstOf(k) == Ev.parts[CHOOSE i \in new : K(i) = k]
                ks == {K(i) : i \in new}
            IN /\ Report(Clause("answer", bad = {}) \cup Clause("reported_once", Ev.left = 0) \cup Touched({}))
               /\ memo' = [k \in ks |-> firstOf(k)] @@ memo
DoExc == Ev.e = "exc" /\ UNCHANGED <<svars, memo, void, once>> /\ Report({Ev.p \o ".exception"})
Init == SessionInit({1}) /\ l = 1 /\ memo = <<>> /\ void = {} /\ once = TRUE
Next == /\ l' = l + 1
        /\ \/ l <= Len(Trace) /\ (DoStart \/ DoNew \/ DoAdd \/ DoLate \/ DoFin \/ DoLoad \/ DoCopy \/ DoPlain \/ DoFilter \/ DoBadq \/ DoObs \/ DoExc)
           \/ l = Len(Trace) + 1 /\ UNCHANGED <<svars, memo, void, once>> /\ PrintT(<<"DONE", Len(Trace)>>)
Spec == Init /\ [][Next]_tv
=============================================================================
