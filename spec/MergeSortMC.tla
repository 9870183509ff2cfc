---------------------------- MODULE MergeSortMC ----------------------------
EXTENDS MergeSort
CONSTANTS NRows, NFiles, Numbers, Batches
(* all assignments of rows to files and of keys (also none and not a number) to rows, both directions, *)
(* all batch sizes, all tie-breaking orders *)
Vals == {<<0, v>> : v \in 1..Numbers} \cup {<<1, 0>>, <<2, 0>>}
Split(asg, key, desc) == [f \in 1..NFiles |->
   LET ids == SetToSortSeq({i \in 1..NRows : asg[i] = f}, LAMBDA a, b : a < b)
   IN [j \in 1..Len(ids) |-> [id |-> ids[j], k |-> Rank(key[ids[j]][1], key[ids[j]][2], desc)]]]
Init == \E asg \in [1..NRows -> 1..NFiles], key \in [1..NRows -> Vals], desc \in BOOLEAN, n \in Batches :
          MInit(Split(asg, key, desc), n)
Next == \E i \in DOMAIN files : Pop(i)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
Terminates == <>Done
=============================================================================
