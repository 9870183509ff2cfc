---------------------------- MODULE CacheDirGen -----------------------------
EXTENDS CacheDir, Json
CONSTANTS Paths, Depth
VARIABLES tick, hist
Some(S) == RandomElement(S)
Init == DirInit(Paths) /\ tick = 0 /\ hist = <<>>
Act == \E p \in {Some(Paths)} : \E op \in {Some({o \in Ops : Possible(o, p)})} : \E o \in {Some(Outcomes(op, p, <<tick + 1>>))} :
       /\ node' = [node EXCEPT ![p] = o[2]]
       /\ hist' = Append(hist, [op |-> op, path |-> p, row |-> tick + 1])
Next == /\ tick' = tick + 1
        /\ IF tick < Depth THEN Act ELSE tick = Depth /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED <<node, hist>>
Spec == Init /\ [][Next]_<<node, tick, hist>>
=============================================================================
