----------------------------- MODULE SortTrace -----------------------------
(* Validates recorded sorts (C04) and pages (C05) of the real code against MergeSort and Paginate. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, files, pos, batch, out, bsz
M == INSTANCE MergeSort
P == INSTANCE Paginate
Ev == Trace[l]
Clause(c, ok) == IF ok THEN {} ELSE {c}
Report(b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
(* every key of a row is given by its class and value, one after the other *)
Key(r, desc) == Flat([i \in 1..Len(desc) |-> M!Rank(r.k[2 * i - 1], r.k[2 * i], desc[i] = 1)])
Keyed(s, desc) == [i \in 1..Len(s) |-> [id |-> s[i].id, k |-> Key(s[i], desc)]]
DoSort == /\ Ev.e = "sort"
          /\ LET src == Flat(Ev.src)
                 got == Flat(Ev.out)
             IN Report(Clause("C04.rows", M!SameRows(src, got))
                       \cup Clause("C04.order", M!Ordered(Keyed(got, Ev.desc)))
                       \cup Clause("C04.columns", Ev.cols_ok)
                       \cup Clause("C04.source", Ev.src_ok)
                       \cup Clause("C04.count", Ev.count = Len(src)))
Filtered(fs, flt) == [i \in 1..Len(fs) |-> SelectSeq(fs[i], LAMBDA r : CASE flt.k = "none" -> TRUE
                                                    [] flt.k = "d" -> r.d >= flt.n
                                                    [] flt.k = "dset" -> r.d \in ToSet(flt.s)
                                                    [] flt.k = "v" -> r.v >= flt.n)]
(* one page; rows are compared as they come, datum by datum order within a file is that of the file *)
DoPage == /\ Ev.e = "page"
          /\ LET fs == Filtered(Ev.fs, Ev.flt) IN
             Report(Clause("C05.page", Flat(Ev.out) = P!PageRows(fs, Ev.o, Ev.n)))
(* all pages of one size, in sequence *)
DoTile == /\ Ev.e = "tile"
          /\ LET fs == Filtered(Ev.fs, Ev.flt) IN
             Report(Clause("C05.tiling", /\ M!SameRows(Flat(Ev.pages), Flat(fs))
                                        /\ Flat(Ev.pages) = P!Pages(fs, 0, Ev.n)))
(* paged examples of an evaluator: entries of the unpaged listing, grouped by datum, are cut like a window *)
Dts(s) == FoldLeft(LAMBDA a, x : IF x.u \in ToSet(a) THEN a ELSE Append(a, x.u), <<>>, s)
DoExPage == /\ Ev.e = "expage"
            /\ LET ds == ToSet(P!Window(Dts(Ev.all), Ev.o, Ev.n)) IN
               Report(Clause("C05.examples", Ev.got = SelectSeq(Ev.all, LAMBDA x : x.u \in ds))
                      \cup Clause("C05.examples_total", Cardinality(ToSet(Dts(Ev.all))) = Ev.ndatums))
DoExc == Ev.e = "exc" /\ Report({Ev.p \o ".exception"})
mv == <<files, pos, batch, out, bsz>>
Init == l = 1 /\ files = <<>> /\ pos = <<>> /\ batch = <<>> /\ out = <<>> /\ bsz = 1
Next == /\ UNCHANGED mv /\ l' = l + 1
        /\ \/ l <= Len(Trace) /\ (DoSort \/ DoPage \/ DoTile \/ DoExPage \/ DoExc)
           \/ l = Len(Trace) + 1 /\ PrintT(<<"DONE", Len(Trace)>>)
Spec == Init /\ [][Next]_<<l, mv>>
=============================================================================
