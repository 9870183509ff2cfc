----------------------------- MODULE CacheDirMC -----------------------------
EXTENDS CacheDir
CONSTANTS Paths, MaxOps
VARIABLES n, last
Init == DirInit(Paths) /\ n = 0 /\ last = "none"
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E p \in Paths, op \in Ops : /\ Possible(op, p) /\ last' = op
                                        /\ \E o \in Outcomes(op, p, <<n + 1>>) : node' = [node EXCEPT ![p] = o[2]]
Spec == Init /\ [][Next]_<<node, n, last>>
(* nothing foreign is ever removed or altered *)
ForeignKept == [][\A p \in Paths : (node[p].k \in {"file", "remains"} => node'[p] = node[p]) /\ (node[p].alien = 1 => node'[p].alien = 1)]_node
(* rows are only ever lost by an operation that was asked to delete *)
RowsKept == [][\A p \in Paths : node[p].k = "cache" => \/ last' \in {"recreate", "delete"}
                                                       \/ node'[p].k = "cache" /\ SubSeq(node'[p].rows, 1, Len(node[p].rows)) = node[p].rows]_node
(* operations at one location do not reach another *)
Local == [][\A p, q \in Paths : p # q /\ node'[p] # node[p] => node'[q] = node[q]]_node
=============================================================================
