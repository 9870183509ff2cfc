----------------------------- MODULE CacheTrace -----------------------------
(* Validates recorded histories of the real caches: every event is an action of Cache, every *)
(* observation is compared with the state of the model.                                      *)
EXTENDS Cache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Clause(c, ok) == IF ok THEN {} ELSE {c}
Keep(s, m) == SelectSeq(s, LAMBDA x : x >= m)
NonEmpty(ss) == SelectSeq(ss, LAMBDA x : x # <<>>)
Report(b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)

DoNew   == Ev.e = "new" /\ CacheReset(Ev.kind, Ev.bs, Ev.rpf)
DoWrite == Ev.e = "write" /\ IF Ev.how = "table" THEN WriteTable(Ev.rows)
           ELSE IF Ev.how = "rows" /\ Ev.rows = <<>> THEN UNCHANGED cvars   \* nothing to write
           ELSE Write(Ev.rows)
DoMisfit == Ev.e = "misfit" /\ Misfit /\ Report(Clause("C01.misfit", Ev.refused))
DoFl    == Ev.e = "flush" /\ DoFlush
DoSort  == Ev.e = "sortby" /\ SortBy(Ev.d)
DoRead  == /\ Ev.e = "read" /\ DoFlush
           /\ Report(Clause("C01.read", Ev.rows = Keep(log, Ev.min))
                     \cup Clause("C01.count", Ev.count = Len(log))
                     \cup Clause("C01.columns", Ev.names_ok)
                     \cup Clause("C01.types", Ev.types_ok)
                     \cup Clause("C01.batch", Ev.max_batch <= Ev.req_batch)
                     \cup Clause("C02.tables", (\A i \in 1..Len(Flushed) : Flushed[i] # <<>>) =>
                                                   Ev.tables = IF IsFile THEN Len(Flushed) ELSE 1))
(* the parquet files of a flushed on-disk cache, in numeric order of their names *)
DoFiles == /\ Ev.e = "files" /\ DoFlush
           /\ Report(Clause("C01.stored", Flat(Ev.files) = log)
                     \cup Clause("C02.files", NonEmpty(Ev.files) = NonEmpty(Flushed))
                     \cup Clause("C02.listing", Ev.listed)
                     \cup Clause("C02.names", Ev.names_ok)
                     \cup Clause("C02.compression", Ev.comp_ok))
(* which datums have rows in which file of a loader's cache *)
DoDatums == /\ Ev.e = "datumfiles" /\ UNCHANGED cvars
            /\ Report(Clause("C02.datum", \A i, j \in 1..Len(Ev.files) :
                        i # j => ToSet(Ev.files[i]) \cap ToSet(Ev.files[j]) = {})
                      \cup Clause("C02.loader_compression", Ev.comp_ok)
                      \cup Clause("C02.loader_bound", \A i \in 1..Len(Ev.sizes) : Ev.sizes[i] < Ev.rpf + Ev.bs + Ev.maxcall)
                      \cup Clause("C02.loader_rollover", \A i \in 1..(Len(Ev.sizes) - 1) : Ev.sizes[i] >= Ev.rpf))
DoExc  == Ev.e = "exc" /\ UNCHANGED cvars /\ Report({Ev.p \o ".exception"})
DoEnd  == l = Len(Trace) + 1 /\ PrintT(<<"DONE", Len(Trace)>>) /\ l' = l + 1 /\ UNCHANGED cvars
Init == l = 1 /\ CacheInit("mem", 1, 1)
Next == \/ /\ l <= Len(Trace) /\ l' = l + 1
           /\ (DoNew \/ DoWrite \/ DoMisfit \/ DoFl \/ DoSort \/ DoRead \/ DoFiles \/ DoDatums \/ DoExc)
        \/ DoEnd
Spec == Init /\ [][Next]_<<cvars, l>>
=============================================================================
