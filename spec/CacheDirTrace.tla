--------------------------- MODULE CacheDirTrace ----------------------------
(* Each event is one operation with its result and what is at both locations afterwards. *)
EXTENDS CacheDir, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Report(b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
Clause(c, ok) == IF ok THEN {} ELSE {"C03." \o c}
Seen(p) == Ev.at[p]
Fits(o) == (IF o[1] = "fails" THEN Ev.r # "ok" ELSE Ev.r = o[1]) /\ Seen(Ev.path) = o[2]
DoStart == Ev.e = "start" /\ node' = [p \in 1..Ev.np |-> None]
DoOp == /\ Ev.e = "dirop"
        /\ Report(Clause("dir_" \o Ev.op, \E o \in Outcomes(Ev.op, Ev.path, <<Ev.row>>) : Fits(o))
                  \cup Clause("dir_elsewhere", \A q \in DOMAIN node : q # Ev.path => Seen(q) = node[q]))
        /\ node' = [q \in DOMAIN node |-> Seen(q)]
DoExc == Ev.e = "exc" /\ UNCHANGED node /\ Report({Ev.p \o ".exception"})
Init == DirInit({1}) /\ l = 1
Next == /\ l' = l + 1
        /\ \/ l <= Len(Trace) /\ (DoStart \/ DoOp \/ DoExc)
           \/ l = Len(Trace) + 1 /\ UNCHANGED node /\ PrintT(<<"DONE", Len(Trace)>>)
Spec == Init /\ [][Next]_<<node, l>>
=============================================================================
