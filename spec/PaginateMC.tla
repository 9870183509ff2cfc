----------------------------- MODULE PaginateMC -----------------------------
EXTENDS Paginate, TLC
CONSTANTS ND, NF, MaxPer
VARIABLES fs, o, n
(* all divisions of ND datums over NF files (in any order of identifiers), 1..MaxPer rows each, all pages *)
Rows(d, k) == [i \in 1..k |-> [d |-> d, v |-> i]]
File(asg, per, f) == LET ds == SetToSortSeq({d \in 1..ND : asg[d] = f}, LAMBDA a, b : a > b)
                     IN FoldLeft(LAMBDA a, d : a \o Rows(d, per[d]), <<>>, ds)
Init == /\ \E asg \in [1..ND -> 1..NF], per \in [1..ND -> 1..MaxPer] :
             fs = [f \in 1..NF |-> File(asg, per, f)]
        /\ o \in 0..(ND + 2) /\ n \in (-1)..(ND + 2)
Next == UNCHANGED <<fs, o, n>>
Spec == Init /\ [][Next]_<<fs, o, n>>
MechanismCorrect == Mechanism(fs, o, n) = PageRows(fs, o, n)
Tiling == n > 0 => /\ ToSet(Pages(fs, 0, n)) = UNION {ToSet(fs[i]) : i \in 1..NF}
                   /\ Len(Pages(fs, 0, n)) = Total(fs)
PageSize == n >= 0 => Cardinality({PageRows(fs, o, n)[i].d : i \in 1..Len(PageRows(fs, o, n))}) <= n
=============================================================================
