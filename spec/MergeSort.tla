----------------------------- MODULE MergeSort -----------------------------
(***************************************************************************)
(* Sorting a cache of several files into another cache: every source file  *)
(* is sorted locally, then the files are merged with a priority queue that *)
(* holds the head of each file; only one batch per file is in memory and   *)
(* is replaced by the file's next batch when it is used up.                *)
(* Rows are [id, k]: an identity and a tuple made of the ranks of the sort *)
(* columns.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

(* What one sort column contributes to the key of a row: numbers (class 0) come in the asked direction, *)
(* whatever the direction rows whose value is not a number (1) come after them and rows without one (2) last. *)
Rank(class, v, desc) == <<class, IF class # 0 THEN 0 ELSE IF desc THEN -v ELSE v>>

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
KeyLeq(r, q) == ~LexLess(q.k, r.k)
SortRows(s) == SortSeq(s, LAMBDA a, b : LexLess(a.k, b.k))

(* the abstract meaning (C04) *)
Ordered(s) == \A i \in 1..(Len(s) - 1) : KeyLeq(s[i], s[i + 1])
BagOfSeq(s) == [x \in ToSet(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
SameRows(s, t) == Len(s) = Len(t) /\ BagOfSeq(s) = BagOfSeq(t)
SortedFrom(src, out) == Ordered(out) /\ SameRows(src, out)

(* the mechanism *)
VARIABLES files,   \* locally sorted source files
          pos,     \* per file: number of rows already handed to the merge as batches
          batch,   \* per file: rows of the batch in memory not yet merged
          out,     \* merged rows
          bsz      \* batch size
mvars == <<files, pos, batch, out, bsz>>
NextBatch(f, p, n) == SubSeq(f, p + 1, IF p + n < Len(f) THEN p + n ELSE Len(f))
MInit(fs, n) == /\ files = [i \in 1..Len(fs) |-> SortRows(fs[i])]
                /\ bsz = n
                /\ batch = [i \in 1..Len(fs) |-> NextBatch(SortRows(fs[i]), 0, n)]
                /\ pos = [i \in 1..Len(fs) |-> Len(NextBatch(SortRows(fs[i]), 0, n))]
                /\ out = <<>>
Ready == {i \in DOMAIN files : batch[i] # <<>>}
Pop(i) == /\ i \in Ready
          /\ \A j \in Ready : KeyLeq(batch[i][1], batch[j][1])
          /\ out' = Append(out, batch[i][1])
          /\ IF Len(batch[i]) > 1
             THEN batch' = [batch EXCEPT ![i] = Tail(@)] /\ UNCHANGED pos
             ELSE LET b == NextBatch(files[i], pos[i], bsz) IN
                  batch' = [batch EXCEPT ![i] = b] /\ pos' = [pos EXCEPT ![i] = @ + Len(b)]
          /\ UNCHANGED <<files, bsz>>
Done == Ready = {}
AllRows == FoldLeft(LAMBDA a, b : a \o b, <<>>, files)
MergeCorrect == Done => SortedFrom(AllRows, out)
MergeSafe == Ordered(out)
=============================================================================
