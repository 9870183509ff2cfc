------------------------------ MODULE CacheMC ------------------------------
(* Exhaustive exploration of Cache: every history of up to MaxRows rows, all configurations. *)
EXTENDS Cache
CONSTANTS MaxRows, MaxCalls, MaxCallRows, Sizes
VARIABLE n
Init == /\ \E k \in {"file", "mem"}, b \in Sizes, r \in Sizes : CacheInit(k, b, r)
        /\ n = 0
Rows(k) == [i \in 1..k |-> Len(log) + i]
Next == /\ n < MaxCalls /\ n' = n + 1
        /\ \/ \E k \in 0..MaxCallRows : Len(log) + k <= MaxRows /\ Write(Rows(k))
           \/ \E k \in 0..MaxCallRows : Len(log) + k <= MaxRows /\ WriteTable(Rows(k))
           \/ DoFlush
           \/ SortBy("descending")
Spec == Init /\ [][Next]_<<cvars, n>>
(* flushing and writing only append to what is stored *)
AppendOnly == [][ (calls' # calls) => IsPrefix(log, log') ]_<<cvars, n>>
=============================================================================
