------------------------------ MODULE ResultMC ------------------------------
(* Sanity of the forms: what fits is plain; Count is the number of parameter records that fit; a metric fits one entry only. *)
EXTENDS Result
CONSTANTS NL, NS
Leaf(t, v, z) == [t |-> t, v |-> v, z |-> z, k |-> <<>>, xs |-> <<>>]
Labels == {ToString(i) : i \in 1..NL}
Sc(i) == Leaf("f", "0." \o ToString(i), 0)
Env == [labels |-> Labels,
        dom |-> [ss |-> [i \in 1..NS |-> Sc(i)], ts |-> [i \in 1..2 |-> Sc(i + 4)], hm |-> <<Leaf("b", "1", 0)>>, model |-> <<Leaf("s", "model-x", 0)>>,
                 retries |-> <<Leaf("i", "3", 1)>>, weights |-> <<Sc(1), Sc(2)>>, types |-> <<Leaf("s", "rouge1", 0), Leaf("s", "rougeL", 0)>>, stem |-> <<Leaf("b", "0", 0)>>]]
Lists == {[t |-> "l", v |-> "", z |-> 0, k |-> <<>>, xs |-> s] : s \in {Env.dom[d] : d \in DOMAIN Env.dom} \cup {<<>>}}
Atoms == {Leaf("s", x, 0) : x \in Labels \cup {"model-x", "rouge1", "rougeL", "?"}} \cup {Sc(i) : i \in 1..(NS + 6)} \cup {Leaf("f", "2.0", 1), Leaf("f", "-1.0", -1)}
         \cup {Leaf("i", "3", 1), Leaf("i", "0", 0), Leaf("i", "-1", -1), Leaf("b", "0", 0), Leaf("b", "1", 0), Leaf("x", "int64", 0)} \cup Lists
Every == UNION {ToSet(FormsOf(t)) : t \in {"clf", "det", "seg", "text"}}
VARIABLES e, m
Rec(ks, f) == [t |-> "d", v |-> "", z |-> 0, k |-> ks, xs |-> [i \in 1..Len(ks) |-> f[i]]]
ParamRecs(en) == {Rec([i \in 1..Len(en[4]) |-> en[4][i][1]], f) : f \in {f \in [1..Len(en[4]) -> Atoms] : \A i \in 1..Len(en[4]) : Fits(en[4][i][2], f[i], Env)}}
Init == /\ e \in Every
        /\ m \in Atoms \cup {Rec(<<"a">>, <<a>>) : a \in Atoms} \cup {Rec(<<"tp", "fp", "fn">>, <<a, b, b>>) : a \in Atoms, b \in Atoms}
Next == UNCHANGED <<e, m>>
Spec == Init /\ [][Next]_<<e, m>>
FitsIsPlain == Fits(e[3], m, Env) => Plain(m)
CountIsRight == LET ps == {Fits(e[4][i][2], Leaf("?", "", 0), Env) : i \in 1..Len(e[4])} IN
                Count(e[4], Env) = FoldLeft(LAMBDA a, p : a * Cardinality({x \in Atoms : Fits(p[2], x, Env)}), 1, e[4])
OneEntryPerType == \A t \in {"clf", "det", "seg", "text"} : \A a, b \in ToSet(FormsOf(t)) : a[2] = b[2] => a = b
=============================================================================
