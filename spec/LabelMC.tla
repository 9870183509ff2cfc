------------------------------ MODULE LabelMC ------------------------------
(***************************************************************************)
(* How loaders number labels and datums.  A datum is a sequence of labels; *)
(* it is written as rows [d, i, l] (datum number, label number, label).    *)
(* A rejected datum may have numbered new labels before it was rejected;   *)
(* these numbers have to be forgotten, otherwise later labels leave gaps.  *)
(* The evaluator reads the numbering back from the rows; a filtered cache  *)
(* keeps the numbering of its source.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Labels, MaxLen, MaxCalls, Forget
VARIABLES num, rows, count, calls, accepted
vars == <<num, rows, count, calls, accepted>>
Datum == UNION {[1..k -> Labels] : k \in 1..MaxLen}
RECURSIVE Number(_, _)
Number(m, d) == IF d = <<>> THEN m ELSE Number(IF Head(d) \in DOMAIN m THEN m ELSE m @@ (Head(d) :> Cardinality(DOMAIN m)), Tail(d))
Init == num = <<>> /\ rows = {} /\ count = 0 /\ calls = 0 /\ accepted = <<>>
Accept(d) == LET m == Number(num, d) IN
             /\ num' = m /\ rows' = rows \cup {[d |-> count, i |-> m[d[j]], l |-> d[j]] : j \in 1..Len(d)}
             /\ count' = count + 1 /\ accepted' = Append(accepted, d)
Reject(d) == /\ num' = IF Forget THEN num ELSE Number(num, d)
             /\ UNCHANGED <<rows, count, accepted>>
Next == calls < MaxCalls /\ calls' = calls + 1 /\ \E d \in Datum : Accept(d) \/ Reject(d)
Spec == Init /\ [][Next]_vars
Known == {r.l : r \in rows}
(* the numbering read back from the rows is a bijection onto 0..n-1 *)
ReadBack == /\ \A r, s \in rows : (r.i = s.i) = (r.l = s.l)
            /\ {r.i : r \in rows} = 0..(Cardinality(Known) - 1)
(* and equals the one of a loader that was only offered the accepted datums *)
RECURSIVE Replay(_, _)
Replay(m, s) == IF s = <<>> THEN m ELSE Replay(Number(m, Head(s)), Tail(s))
NoTrace == LET m == Replay(<<>>, accepted) IN \A r \in rows : m[r.l] = r.i
DatumsCounted == {r.d : r \in rows} = 0..(Len(accepted) - 1)
=============================================================================
