----------------------------- MODULE SessionMC -----------------------------
(* All small sessions: nothing on disk is ever destroyed or altered, evaluators never change, rejected datums leave no trace. *)
EXTENDS Session
CONSTANTS Paths, Datums, MaxOps, Once
VARIABLES n, offered            \* number of operations; accepted datums per loader, tracked independently
F(k) == [d |-> <<[k |-> "u", n |-> k]>>, g |-> <<>>, p |-> <<>>]
P0 == Paths \cup {Mem}
Init == SessionInit(Paths) /\ n = 0 /\ offered = <<>>
Step == \/ \E p \in P0, fine \in BOOLEAN : \E r \in NewResults(p, fine) :
               IF r = "ok" THEN New(p) /\ offered' = Append(offered, {}) ELSE Skip /\ UNCHANGED offered
        \/ \E h \in 1..Len(ld), x \in Datums : /\ ld[h].st = "open" /\ x \notin ld[h].ids
                                               /\ \/ Add(h, {x}) /\ offered' = [offered EXCEPT ![h] = @ \cup {x}]
                                                  \/ Skip /\ UNCHANGED offered        \* rejected
        \/ \E h \in 1..Len(ld) : (IF FinResult(h, Once) = "ok" THEN Finalize(h) ELSE Skip) /\ UNCHANGED offered
        \/ \E p \in Paths : disk[p].k # "open" /\ (IF LoadResult(p) = "ok" THEN Load(p) ELSE Skip) /\ UNCHANGED offered
        \/ \E p, q \in Paths : disk[p].k = "final" /\ disk[q].k = "free" /\ (Copy(p, q) \/ CopyPart(p, q)) /\ UNCHANGED offered
        \/ \E h \in 1..Len(ev), k \in {1, 2}, p \in P0 :
             /\ UNCHANGED offered
             /\ \/ "ok" \in FilterResults(h, p) /\ (FilterOk(h, F(k), p) \/ FilterEmpty(h, p))
                \/ "ok" \notin FilterResults(h, p) /\ Skip
        \/ \E p \in Paths : disk[p].k = "free" /\ (PlainFile(p) \/ ForeignDir(p)) /\ UNCHANGED offered
Next == n < MaxOps /\ n' = n + 1 /\ Step
Spec == Init /\ [][Next]_<<svars, n, offered>>
NothingDestroyed == [][\A p \in Paths : disk[p].k \in {"final", "file", "broken"} => (disk'[p] = disk[p] \/ ~Once)]_svars
EvaluatorsImmutable == [][\A i \in 1..Len(ev) : ev'[i] = ev[i]]_svars
LoadersKept == [][\A i \in 1..Len(ld) : ld[i].ids \subseteq ld'[i].ids /\ (ld[i].st = "final" => ld'[i].st = "final")]_svars
AcceptedOnly == \A h \in 1..Len(ld) : ld[h].ids = offered[h]
DiskAgrees == \A i \in 1..Len(ev) : ev[i].path # Mem => disk[ev[i].path].k = "final" /\ disk[ev[i].path].v = ev[i].v
OnePerPath == \A i, j \in 1..Len(ld) : i # j /\ ld[i].path # Mem => ld[i].path # ld[j].path
=============================================================================
