------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The life of loaders and evaluators of one task over a set of paths.     *)
(*                                                                         *)
(* What an evaluator *is* (its value) is the set of datums accepted by its *)
(* loader, restricted by three conjunctions (sets) of filter conditions.   *)
(* Everything else - where the data lives, in which order and in how many  *)
(* calls it arrived, what was rejected in between, whether the evaluator   *)
(* was loaded from disk, what was asked before - is not part of the value, *)
(* and every answer is a function of the value and the query.              *)
(*                                                                         *)
(*   disk[p] : "free" | "open" | "final" (with the value) | "file" |       *)
(*             "broken" (a saved evaluator of which a part is missing) |   *)
(*             "foreign" (a directory of somebody else's files)            *)
(*   ld      : loaders     [path (0 = memory), ids, st]                    *)
(*   ev      : evaluators  [path (0 = memory), v]                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES disk, ld, ev
svars == <<disk, ld, ev>>
Mem == 0
Free == [k |-> "free"]
Value(ids) == [ids |-> ids, d |-> {}, g |-> {}, p |-> {}]
Narrow(v, f) == [v EXCEPT !.d = @ \cup ToSet(f.d), !.g = @ \cup ToSet(f.g), !.p = @ \cup ToSet(f.p)]
OnDatums(f) == [d |-> f, g |-> <<>>, p |-> <<>>]
Taken(p) == p # Mem /\ disk[p].k # "free"
Put(p, x) == IF p = Mem THEN disk ELSE [disk EXCEPT ![p] = x]
SessionInit(paths) == disk = [p \in paths |-> Free] /\ ld = <<>> /\ ev = <<>>

-----------------------------------------------------------------------------
(* What each operation must answer, and what it may touch on disk *)
(* fine: whether the declared metadata fields can be used *)
(* a directory with other files may be used as long as these are kept *)
Foreign(p) == p # Mem /\ disk[p].k = "foreign"
NewResults(p, fine) == CASE ~fine -> {"fails"} [] Foreign(p) -> {"ok", "fails"} [] OTHER -> IF Taken(p) THEN {"fails"} ELSE {"ok"}
FinResult(h, once) == IF ld[h].ids = {} THEN "empty" ELSE IF ld[h].st = "final" /\ once THEN "fails" ELSE "ok"
LoadResult(p) == CASE disk[p].k = "free" -> "missing" [] disk[p].k = "file" -> "notdir" [] disk[p].k \in {"broken", "foreign"} -> "fails" [] OTHER -> "ok"
(* the result of a filter that matches nothing depends on the data: "empty" is then a legal answer *)
FilterResults(h, p) == IF ev[h].path # Mem /\ p = Mem THEN {"nopath"} ELSE IF ev[h].path # Mem /\ Foreign(p) THEN {"ok", "empty", "fails"} ELSE IF ev[h].path # Mem /\ Taken(p) THEN {"fails"} ELSE {"ok", "empty"}
FilterTarget(h, p) == IF ev[h].path = Mem THEN Mem ELSE p

(* Effects (when the operation succeeds) *)
New(p) == disk' = Put(p, [k |-> "open"]) /\ ld' = Append(ld, [path |-> p, ids |-> {}, st |-> "open"]) /\ UNCHANGED ev
Add(h, ids) == ld' = [ld EXCEPT ![h].ids = @ \cup ids] /\ UNCHANGED <<disk, ev>>
(* once it is finalized a classification or detection loader takes no more data *)
LateResult(h, once) == IF once /\ ld[h].st = "final" THEN "fails" ELSE "ok"
Finalize(h) == /\ ld' = [ld EXCEPT ![h].st = "final"]
               /\ disk' = Put(ld[h].path, [k |-> "final", v |-> Value(ld[h].ids)])
               /\ ev' = Append(ev, [path |-> ld[h].path, v |-> Value(ld[h].ids)])
Load(p) == ev' = Append(ev, [path |-> p, v |-> disk[p].v]) /\ UNCHANGED <<disk, ld>>
Copy(p, q) == disk' = [disk EXCEPT ![q] = disk[p]] /\ UNCHANGED <<ld, ev>>
(* a copy that lacks a part *)
CopyPart(p, q) == disk' = [disk EXCEPT ![q] = [k |-> "broken"]] /\ UNCHANGED <<ld, ev>>
(* a question that cannot be answered is refused and changes nothing *)
QueryResult(nthresholds) == IF nthresholds = 0 THEN "nopath" ELSE "ok"     \* nopath: ValueError
FilterOk(h, f, p) == LET v == Narrow(ev[h].v, f) q == FilterTarget(h, p) IN
                     /\ disk' = Put(q, [k |-> "final", v |-> v])
                     /\ ev' = Append(ev, [path |-> q, v |-> v]) /\ UNCHANGED ld
FilterEmpty(h, p) == disk' = Put(FilterTarget(h, p), [k |-> "open"]) /\ UNCHANGED <<ld, ev>>
ForeignDir(p) == disk' = [disk EXCEPT ![p] = [k |-> "foreign"]] /\ UNCHANGED <<ld, ev>>
PlainFile(p) == disk' = [disk EXCEPT ![p] = [k |-> "file"]] /\ UNCHANGED <<ld, ev>>
Skip == UNCHANGED svars
=============================================================================
