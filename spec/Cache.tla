------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* A cache of rows with two back-ends: one table in memory, or numbered    *)
(* parquet files in a directory.  Rows are represented by their            *)
(* identifiers; `log` is the sequence of all rows ever written (the        *)
(* abstract content), `closed`/`cur`/`buf` is where they physically are.   *)
(* One action per writer call.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

VARIABLES cfg,     \* [kind, bs, rpf]
          log,     \* abstract content in write order
          buf,     \* rows accepted but not yet handed to a file or table (sequence of batches)
          cur,     \* sequence of write-calls in the open file (<<>> and open = FALSE if none)
          open,    \* is a file open
          closed,  \* sequence of closed files, each a sequence of rows
          calls,   \* history: [n |-> rows, t |-> as a table] of each write call
          why      \* history: why each closed file was closed ("full", "flush", "table")

cvars == <<cfg, log, buf, cur, open, closed, calls, why>>

Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Size(ss) == FoldLeft(LAMBDA a, b : a + Len(b), 0, ss)

IsFile == cfg.kind = "file"

CacheInit(k, b, r) ==
  /\ cfg = [kind |-> k, bs |-> b, rpf |-> r]
  /\ log = <<>> /\ buf = <<>> /\ cur = <<>> /\ open = FALSE /\ closed = <<>> /\ calls = <<>> /\ why = <<>>

CacheReset(k, b, r) ==
  /\ cfg' = [kind |-> k, bs |-> b, rpf |-> r]
  /\ log' = <<>> /\ buf' = <<>> /\ cur' = <<>> /\ open' = FALSE /\ closed' = <<>> /\ calls' = <<>> /\ why' = <<>>

(* write_rows, write_columns, write_batch: `rows` in one call *)
Write(rows) ==
  /\ log' = log \o rows
  /\ calls' = Append(calls, [n |-> Len(rows), t |-> FALSE])
  /\ UNCHANGED cfg
  /\ LET b == Append(buf, rows) IN
     IF Size(b) < cfg.bs
     THEN buf' = b /\ UNCHANGED <<cur, open, closed, why>>
     ELSE IF IsFile /\ Size(cur) + Size(b) >= cfg.rpf
          THEN buf' = <<>> /\ cur' = <<>> /\ open' = FALSE
               /\ closed' = Append(closed, Flat(cur) \o Flat(b)) /\ why' = Append(why, "full")
          ELSE buf' = <<>> /\ cur' = cur \o b /\ open' = TRUE /\ UNCHANGED <<closed, why>>

(* a call with data that does not have the columns and types of the schema is refused as a whole *)
Misfit == UNCHANGED cvars

(* what a flush leaves: closed files *)
Flushed == IF open \/ buf # <<>> THEN Append(closed, Flat(cur) \o Flat(buf)) ELSE closed

WhyFlushed == IF open \/ buf # <<>> THEN Append(why, "flush") ELSE why

DoFlush == /\ closed' = Flushed /\ why' = WhyFlushed /\ buf' = <<>> /\ cur' = <<>> /\ open' = FALSE
           /\ UNCHANGED <<cfg, log, calls>>

WriteTable(rows) ==
  /\ log' = log \o rows
  /\ calls' = Append(calls, [n |-> Len(rows), t |-> TRUE])
  /\ closed' = Append(Flushed, rows) /\ why' = Append(WhyFlushed, "table")
  /\ buf' = <<>> /\ cur' = <<>> /\ open' = FALSE
  /\ UNCHANGED cfg

(* in-place sort: each file locally, the in-memory table globally *)
SortSeqAsc(s)  == SortSeq(s, LAMBDA a, b : a < b)
SortSeqDesc(s) == SortSeq(s, LAMBDA a, b : a > b)
SortOne(s, d) == IF d = "ascending" THEN SortSeqAsc(s) ELSE SortSeqDesc(s)
SortBy(d) ==
  /\ LET fs == [i \in 1..Len(Flushed) |-> SortOne(Flushed[i], d)] IN
     /\ closed' = IF IsFile THEN fs ELSE <<SortOne(Flat(Flushed), d)>>
     /\ log' = IF IsFile THEN Flat(fs) ELSE SortOne(log, d)
     /\ why' = IF IsFile THEN WhyFlushed ELSE <<"flush">>
  /\ buf' = <<>> /\ cur' = <<>> /\ open' = FALSE
  /\ UNCHANGED <<cfg, calls>>

-----------------------------------------------------------------------------
(* Properties of the design *)

(* C01: nothing is lost, duplicated or reordered between the calls and the medium *)
Content == Flat(closed) \o Flat(cur) \o Flat(buf)
RoundTrip == Content = log

(* C02 *)
NotOverdue == IsFile => (open => Size(cur) < cfg.rpf)             \* closed as soon as full
BufferBound == buf # <<>> => Size(buf) < cfg.bs
MaxCall == IF calls = <<>> THEN 0 ELSE Max({calls[i].n : i \in 1..Len(calls)})
FileBound == IsFile => \A i \in 1..Len(closed) :
               why[i] # "table" => Len(closed[i]) < cfg.rpf + cfg.bs + MaxCall
(* a file is closed because it is full, or by an explicit flush or table write *)
NoEarlyClose == IsFile => \A i \in 1..Len(closed) : why[i] = "full" => Len(closed[i]) >= cfg.rpf
(* every call lies within one file *)
Cum(ss, i) == FoldLeft(LAMBDA a, b : a + Len(b), 0, SubSeq(ss, 1, i))
CumN(i) == FoldLeft(LAMBDA a, b : a + b.n, 0, SubSeq(calls, 1, i))
Aligned == IsFile => {Cum(closed, i) : i \in 0..Len(closed)} \subseteq {CumN(i) : i \in 0..Len(calls)}
=============================================================================
