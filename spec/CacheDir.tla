------------------------------ MODULE CacheDir ------------------------------
(***************************************************************************)
(* What may happen to the locations of on-disk caches: creating (with or   *)
(* without permission to replace), deleting, loading and writing, next to  *)
(* things that are not caches.                                             *)
(*   node[p] = [k, rows, alien]                                            *)
(*     k     : "none" | "file" (a foreign plain file) | "dir" (a directory *)
(*             that is not a cache) | "remains" (a directory of foreign    *)
(*             parquet files that is not a cache) | "cache"                *)
(*     rows  : content of a cache                                          *)
(*     alien : a foreign file, not parquet, lies in the directory          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
VARIABLES node
None == [k |-> "none", rows |-> <<>>, alien |-> 0]
Fresh == [k |-> "cache", rows |-> <<>>, alien |-> 0]
(* the outcomes an operation may have at p: pairs of result and resulting node *)
Unchanged(p) == <<"fails", node[p]>>
Create(p, del) == CASE node[p].k = "none" -> {<<"ok", Fresh>>}
                    [] node[p].k = "cache" /\ del /\ node[p].alien = 0 -> {<<"ok", Fresh>>}
                    (* the foreign file stays; whether the rows next to it do is left open *)
                    [] node[p].k = "cache" /\ del -> {<<"fails", node[p]>>, <<"fails", [k |-> "dir", rows |-> <<>>, alien |-> 1]>>,
                                                      <<"ok", [Fresh EXCEPT !.alien = 1]>>}
                    [] OTHER -> {Unchanged(p)}
Delete(p) == CASE node[p].k = "none" -> {<<"ok", None>>}
               [] node[p].k = "cache" /\ node[p].alien = 0 -> {<<"ok", None>>}
               [] node[p].k = "cache" -> {<<r, x>> : r \in {"ok", "fails"}, x \in {node[p], [k |-> "dir", rows |-> <<>>, alien |-> 1]}}
               [] OTHER -> {Unchanged(p)}
Load(p) == CASE node[p].k = "none" -> {<<"missing", None>>}
             [] node[p].k = "file" -> {<<"notdir", node[p]>>}
             [] node[p].k \in {"dir", "remains"} -> {Unchanged(p)}
             [] OTHER -> {<<"ok", node[p]>>}
Write(p, rows) == {<<"ok", [node[p] EXCEPT !.rows = @ \o rows]>>}
(* the environment *)
Litter(p) == {<<"ok", IF node[p].k = "none" THEN [None EXCEPT !.k = "dir", !.alien = 1] ELSE [node[p] EXCEPT !.alien = 1]>>}
Dataset(p, rows) == {<<"ok", [None EXCEPT !.k = "remains", !.rows = rows]>>}
Plain(p) == {<<"ok", [None EXCEPT !.k = "file"]>>}
Outcomes(op, p, rows) == CASE op = "create" -> Create(p, FALSE) [] op = "recreate" -> Create(p, TRUE) [] op = "delete" -> Delete(p)
                           [] op = "load" -> Load(p) [] op = "write" -> Write(p, rows) [] op = "litter" -> Litter(p) [] op = "plain" -> Plain(p)
                           [] op = "dataset" -> Dataset(p, rows)
Possible(op, p) == CASE op = "write" -> node[p].k = "cache" [] op = "litter" -> node[p].k \in {"none", "cache"} [] op \in {"plain", "dataset"} -> node[p].k = "none" [] OTHER -> TRUE
Ops == {"create", "recreate", "delete", "load", "write", "litter", "plain", "dataset"}
DirInit(ps) == node = [p \in ps |-> None]
=============================================================================
