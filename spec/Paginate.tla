------------------------------ MODULE Paginate ------------------------------
(***************************************************************************)
(* A page (offset o, limit n) of the datum index.  A layout is a sequence  *)
(* of files, each a sequence of rows [d, v] (datum, payload); every datum  *)
(* lies in one file.  The index lists the datums file by file, ascending   *)
(* within a file.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt
NoLimit == -1
Datums(f) == SetToSortSeq({f[i].d : i \in 1..Len(f)}, LAMBDA a, b : a < b)
Index(fs) == FoldLeft(LAMBDA a, f : a \o Datums(f), <<>>, fs)
Window(s, o, n) == SubSeq(s, o + 1, IF n = NoLimit \/ o + n > Len(s) THEN Len(s) ELSE o + n)
(* meaning (C05): exactly the rows of the datums in the window *)
PageDatums(fs, o, n) == Window(Index(fs), o, n)
PageRows(fs, o, n) == LET ds == ToSet(PageDatums(fs, o, n)) IN
   FoldLeft(LAMBDA a, f : a \o SelectSeq(f, LAMBDA r : r.d \in ds), <<>>, fs)

(* mechanism: walk the files, counting datums, and cut the first and last page file by key comparison *)
RECURSIVE Walk(_, _, _, _)
Walk(fs, i, o, n) ==
  IF fs = <<>> THEN <<>>
  ELSE LET ds == Datums(fs[1])
           e == i + Len(ds)
           lo == IF i < o /\ e > o THEN {d \in ToSet(ds) : d >= ds[o - i + 1]} ELSE ToSet(ds)
           hi == IF i < o + n /\ e > o + n THEN {d \in ToSet(ds) : d < ds[o + n - i + 1]} ELSE ToSet(ds)
       IN IF e <= o THEN Walk(Tail(fs), e, o, n)
          ELSE IF i >= o + n THEN <<>>
          ELSE SelectSeq(fs[1], LAMBDA r : r.d \in lo \cap hi) \o Walk(Tail(fs), e, o, n)
Total(fs) == FoldLeft(LAMBDA a, f : a + Len(f), 0, fs)
Mechanism(fs, o, n) == LET m == IF n = NoLimit THEN Total(fs) ELSE n IN
   IF o = 0 /\ m >= Total(fs) THEN FoldLeft(LAMBDA a, f : a \o f, <<>>, fs)
   ELSE IF o >= Total(fs) THEN <<>> ELSE Walk(fs, 0, o, m)
(* pages of size n starting at 0, n, 2n, ... *)
RECURSIVE Pages(_, _, _)
Pages(fs, o, n) == IF o >= Len(Index(fs)) THEN <<>> ELSE PageRows(fs, o, n) \o Pages(fs, o + n, n)
=============================================================================
