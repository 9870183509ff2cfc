------------------------------ MODULE CacheGen ------------------------------
(* Generates histories of writer calls (TLC -simulate); each is printed as JSON and replayed into the code. *)
EXTENDS Cache, Json
CONSTANTS Depth, MaxId, Sizes, CallSizes
VARIABLE hist
Rec(op, how, rows, arg) == [op |-> op, how |-> how, rows |-> rows, arg |-> arg]
Init == \E k \in {"file", "mem"}, b \in Sizes, r \in Sizes :
          CacheInit(k, b, r) /\ hist = <<[op |-> "new", how |-> k, rows |-> <<b, r>>, arg |-> 0]>>
Pick(k) == [i \in 1..k |-> RandomElement(1..MaxId)]
Act ==
  \/ \E h \in {"rows", "columns", "batch"}, k \in CallSizes :
        \E r \in {Pick(k)} : /\ IF h = "rows" /\ k = 0 THEN UNCHANGED cvars ELSE Write(r)
                           /\ hist' = Append(hist, Rec("write", h, r, 0))
  \/ \E k \in CallSizes : \E r \in {Pick(k)} : WriteTable(r) /\ hist' = Append(hist, Rec("write", "table", r, 0))
  \/ RandomElement(1..2) = 1 /\ \E h \in {"rows", "columns", "batch", "table"} : \E r \in {Pick(RandomElement(1..3))} :
        Misfit /\ hist' = Append(hist, Rec("misfit", h, r, RandomElement(0..2)))
  \/ DoFlush /\ hist' = Append(hist, Rec("flush", "", <<>>, 0))
  \/ \E i \in 1..2 : DoFlush /\ hist' = Append(hist, Rec("read", RandomElement({"tables", "arrays", "both", "frag", "load"}), <<i>>,
                                                RandomElement({0, 1, MaxId \div 2, MaxId, MaxId + 1})))
  \/ RandomElement(1..4) = 1 /\ \E d \in {"ascending", "descending"} : SortBy(d) /\ hist' = Append(hist, Rec("sortby", d, <<>>, 0))
Next == IF Len(hist) < Depth THEN Act
        ELSE /\ Len(hist) = Depth
             /\ PrintT(<<"BEH", ToJson(hist)>>)
             /\ hist' = Append(hist, Rec("end", "", <<>>, 0))
             /\ UNCHANGED cvars
Spec == Init /\ [][Next]_<<cvars, hist>>
=============================================================================
