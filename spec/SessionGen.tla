----------------------------- MODULE SessionGen -----------------------------
(* Generates sessions (TLC -simulate); each is printed as JSON and replayed into the code. Menu weighs the operations. *)
EXTENDS Session, Json, FiniteSetsExt
CONSTANTS Depth, ND, NQ, NF, Paths, MaxLd, Menu, InOrder, BadRate, Odd     \* Odd: how often (in ten) unusable fields and incomplete copies
VARIABLES tick, hist
gv == <<svars, tick, hist>>
P0 == Paths \cup {Mem}
Some(S) == RandomElement(S)
Op(op, a, b, c, ids) == hist' = Append(hist, [op |-> op, a |-> a, b |-> b, c |-> c, ids |-> ids])
F(k) == [d |-> <<k>>, g |-> <<>>, p |-> <<>>]
Skp == Skip /\ UNCHANGED hist
RECURSIVE Draw(_, _)
Draw(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET x == Some(S) IN <<x>> \o Draw(S \ {x}, k - 1)
NextIds(h, k) == LET rest == (1..ND) \ ld[h].ids m == Cardinality(ld[h].ids) IN
                 IF InOrder THEN [i \in 1..(IF k > ND - m THEN ND - m ELSE k) |-> m + i] ELSE Draw(rest, k)
(* \E x \in {Some(S)} draws once *)
DoNew == IF Len(ld) >= MaxLd THEN Skp
         ELSE \E p \in {Some(P0)}, b \in {IF Some(1..10) <= Odd THEN Some(1..20) ELSE 0} :
              Op("new", p, b, 0, <<>>) /\ (IF NewResults(p, b = 0) = {"ok"} THEN New(p) ELSE Skip)
DoAdd == LET hs == {h \in 1..Len(ld) : ld[h].st = "open"} IN
         IF hs = {} THEN Skp
         ELSE \E h \in {Some(hs)} : \E ids \in {NextIds(h, Some(0..3))} : \E bad \in {IF Some(1..10) <= BadRate THEN Some(1..(Len(ids) + 1)) ELSE 0} :
              Op("add", h, bad, Some(0..9), ids) /\ Add(h, ToSet(IF bad = 0 THEN ids ELSE SubSeq(ids, 1, bad - 1)))
DoLate == LET hs == {h \in 1..Len(ld) : ld[h].st = "final"} IN
          IF hs = {} THEN Skp ELSE \E h \in {Some(hs)} : Op("late", h, 0, 0, Draw(1..ND, Some(1..3))) /\ Skip
DoFin == IF ld = <<>> THEN Skp
         ELSE \E h \in {Some(1..Len(ld))} : Op("fin", h, 0, 0, <<>>) /\ (IF FinResult(h, TRUE) = "ok" THEN Finalize(h) ELSE Skip)
DoLoad == LET ps == {p \in Paths : disk[p].k # "open"} IN
          IF ps = {} THEN Skp ELSE \E p \in {Some(ps)} : Op("load", p, 0, 0, <<>>) /\ (IF LoadResult(p) = "ok" THEN Load(p) ELSE Skip)
DoCopy == LET s == {p \in Paths : disk[p].k = "final"} t == {p \in Paths : disk[p].k = "free"} IN
          IF s = {} \/ t = {} THEN Skp ELSE \E p \in {Some(s)}, q \in {Some(t)}, b \in {IF Some(1..10) <= 2 * Odd THEN Some(1..9) ELSE 0} :
               Op("copy", p, q, b, <<>>) /\ (IF b = 0 THEN Copy(p, q) ELSE CopyPart(p, q))
DoFilter == IF ev = <<>> THEN Skp
            ELSE \E h \in {Some(1..Len(ev))}, k \in {Some(1..NF)}, p \in {Some(P0)} :
                 Op("filter", h, k, p, <<>>) /\ (IF FilterResults(h, p) = {"ok", "empty"} THEN FilterOk(h, F(k), p) ELSE Skip)
DoObs == IF ev = <<>> THEN Skp ELSE Op("obs", Some(1..Len(ev)), Some(1..NQ), Some(0..NF), <<>>) /\ Skip
(* load what was filtered or finalized; filter to where there is room; ask evaluators of the same value the same *)
DoLoadX == LET ps == {p \in Paths : disk[p].k = "final"} fs == {p \in ps : disk[p].v # Value(disk[p].v.ids)} IN
           IF ps = {} THEN Skp ELSE \E p \in {Some(IF fs # {} /\ Some(1..3) > 1 THEN fs ELSE ps)} : Op("load", p, 0, 0, <<>>) /\ Load(p)
DoFilterX == LET hs == {h \in 1..Len(ev) : ev[h].path # Mem} ps == {p \in Paths : disk[p].k = "free"} IN
             IF hs = {} \/ ps = {} THEN DoFilter
             ELSE \E h \in {Some(hs)}, k \in {Some(1..NF)}, p \in {Some(ps)} : Op("filter", h, k, p, <<>>) /\ FilterOk(h, F(k), p)
Rec(op, a, b, c) == [op |-> op, a |-> a, b |-> b, c |-> c, ids |-> <<>>]
DoTwins == LET ts == {t \in (1..Len(ev)) \X (1..Len(ev)) : t[1] < t[2] /\ ev[t[1]].v = ev[t[2]].v} IN
           IF ts = {} THEN DoObs
           ELSE \E t \in {Some(ts)}, q \in {Some(1..NQ)}, f \in {Some(0..NF)} : hist' = hist \o <<Rec("obs", t[1], q, f), Rec("obs", t[2], q, f)>> /\ Skip
DoBadq == IF ev = <<>> THEN Skp ELSE Op("badq", Some(1..Len(ev)), Some(1..NQ), Some(0..9), <<>>) /\ Skip
DoPlain == LET t == {p \in Paths : disk[p].k = "free"} IN
           IF t = {} THEN Skp ELSE \E p \in {Some(t)} : \E b \in {IF Some(1..10) <= 2 * Odd THEN Some(1..9) ELSE 0} :
              Op("plain", p, b, 0, <<>>) /\ (IF b = 0 THEN PlainFile(p) ELSE ForeignDir(p))
Init == SessionInit(Paths) /\ tick = 0 /\ hist = <<>>
Act == \E m \in {Menu[Some(1..Len(Menu))]} :
       CASE m = "new" -> DoNew [] m = "add" -> DoAdd [] m = "fin" -> DoFin [] m = "late" -> DoLate [] m = "load" -> DoLoad [] m = "copy" -> DoCopy
         [] m = "filter" -> DoFilter [] m = "obs" -> DoObs [] m = "badq" -> DoBadq [] m = "loadx" -> DoLoadX [] m = "filterx" -> DoFilterX [] m = "twins" -> DoTwins [] OTHER -> DoPlain
Next == /\ tick' = tick + 1
        /\ IF tick < Depth THEN Act
           ELSE tick = Depth /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED <<svars, hist>>
Spec == Init /\ [][Next]_gv
(* menus *)
MenuC03 == <<"new", "new", "add", "add", "add", "fin", "fin", "late", "load", "load", "loadx", "copy", "filter", "filter", "obs", "obs", "plain">>
MenuC14 == <<"new", "new", "new", "add", "add", "add", "add", "add", "fin", "fin", "late", "obs", "twins", "twins">>
MenuC15 == <<"new", "add", "add", "add", "fin", "fin", "filter", "filter", "filter", "obs", "twins">>
MenuC16 == <<"new", "add", "add", "add", "fin", "fin", "load", "loadx", "loadx", "copy", "filter", "filterx", "obs", "twins", "twins">>
MenuC17 == <<"new", "add", "add", "fin", "fin", "filter", "obs", "obs", "obs", "obs", "obs", "obs", "badq">>
MenuC21 == <<"new", "new", "add", "add", "add", "add", "fin", "obs">>
MenuC22 == <<"new", "new", "add", "add", "add", "fin", "filter", "obs">>
=============================================================================
