----------------------------- MODULE DetTrace -----------------------------
(***************************************************************************)
(* Validates recorded object detection sessions against Det.  Thresholds   *)
(* are referred to by their position in Ev.ts (rationals); Ev.ss holds     *)
(* score thresholds; Ev.p names the property under test.                   *)
(***************************************************************************)
EXTENDS Det, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, e
Ev == Trace[l]
Clause(c, ok) == IF ok THEN {} ELSE {Ev.p \o "." \o c}
Report(b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
Sub == OnDatums(e, Ev.f)
NT == 1..Len(Ev.ts)
T(i) == <<Ev.ts[i][1], Ev.ts[i][2]>>
Ths == ToSet(Ev.ss)
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
Same(got, want) == NoDup(got) /\ ToSet(got) = want
BagOf(s) == [x \in ToSet(s) |-> N({i \in 1..Len(s) : s[i] = x})]
(* functional observation: got is a sequence of <<key..., value>> given as records [k, v] *)
Keys(got) == [i \in 1..Len(got) |-> got[i].k]
NearAll(got, K, val(_)) == Same(Keys(got), K) /\ \A i \in 1..Len(got) : Near(got[i].v, val(got[i].k))

DoData == Ev.e = "data" /\ e' = Build(Ev.ds, Ev.kind)
DoFilter == /\ Ev.e = "filter"
            /\ LET n == Filter(e, Ev.f) IN
               /\ Report(Clause("empty", (n.ds = <<>>) = (Ev.empty = 1)))
               /\ e' = IF n.ds = <<>> THEN e ELSE n
DoInfo == /\ Ev.e = "info" /\ UNCHANGED e
          /\ LET sub == Sub IN
             Report(Clause("labels", Ev.labels = N(e.labels)) \cup Clause("datums", Ev.datums = Len(sub.ds))
                    \cup Clause("groundtruths", Ev.gts = SumOver(Idx(sub), LAMBDA i : N({j \in 1..Len(sub.ds[i].gts) : GtOk(sub.ds[i].gts[j], Ev.g)})))
                    \cup Clause("predictions", Ev.pds = SumOver(Idx(sub), LAMBDA i : N({j \in 1..Len(sub.ds[i].pds) :
                                                   \E k \in 1..Len(sub.ds[i].pds[j].ls) : PdOk(sub.ds[i].pds[j], sub.ds[i].pds[j].ls[k], Ev.q)}))))
DoPR == /\ Ev.e = "pr" /\ UNCHANGED e
        /\ LET sub == TLCEval(Sub)
               R == TLCEval([x \in e.labels |-> Ranked(sub, x)])
               G == TLCEval([x \in e.labels |-> N(GtsOf(sub, x))])
               W == TLCEval([q \in NT \X e.labels |-> Winners(R[q[2]], T(q[1]))])
               K == {<<i, s, x>> : i \in NT, s \in Ths, x \in e.labels}
               C == TLCEval([k \in K |-> CountsR(R[k[3]], W[<<k[1], k[3]>>], G[k[3]], k[2])])
           IN Report(Clause("counts", Same(Ev.counts, {<<k[1], k[2], k[3], C[k].tp, C[k].fp, C[k].fn>> : k \in K}))
                     \cup Clause("precision", Same(Ev.prec, {<<k[1], k[2], k[3], Precision(C[k])>> : k \in K}))
                     \cup Clause("recall", Same(Ev.rec, {<<k[1], k[2], k[3], Recall(C[k])>> : k \in K}))
                     \cup Clause("f1", Same(Ev.f1, {<<k[1], k[2], k[3], F1c(C[k])>> : k \in K})))
DoAP == /\ Ev.e = "ap" /\ UNCHANGED e
        /\ LET sub == TLCEval(Sub)
               nl == N(e.labels)
               R == TLCEval([x \in e.labels |-> Ranked(sub, x)])
               G == TLCEval([x \in e.labels |-> N(GtsOf(sub, x))])
               W == TLCEval([q \in NT \X e.labels |-> Winners(R[q[2]], T(q[1]))])
               P == TLCEval([q \in NT \X e.labels |-> Points(R[q[2]], W[q], G[q[2]])])
               CV == TLCEval([q \in NT \X e.labels |-> Curve(P[q])])
               A == TLCEval([q \in NT \X e.labels |-> AvgPrec(CV[q])])
               Rc(i, s, x) == Micro(Recall(CountsR(R[x], W[<<i, x>>], G[x], s)))
               AR == TLCEval([q \in Ths \X e.labels |-> SumOver(NT, LAMBDA i : Rc(i, q[1], q[2])) \div Len(Ev.ts)])
               KL == {<<x>> : x \in e.labels}
           IN Report(Clause("ap", NearAll(Ev.ap, NT \X e.labels, LAMBDA k : A[k]))
                     \cup Clause("map", NearAll(Ev.map, {<<i>> : i \in NT}, LAMBDA k : SumOver(e.labels, LAMBDA x : A[<<k[1], x>>]) \div nl))
                     \cup Clause("ap_over_ious", NearAll(Ev.apo, KL, LAMBDA k : SumOver(NT, LAMBDA i : A[<<i, k[1]>>]) \div Len(Ev.ts)))
                     \cup Clause("map_over_ious", NearAll(Ev.mapo, {<<>>}, LAMBDA k : SumOver(NT \X e.labels, LAMBDA q : A[q]) \div (nl * Len(Ev.ts))))
                     \cup Clause("ar", NearAll(Ev.ar, Ths \X e.labels, LAMBDA k : AR[k]))
                     \cup Clause("mar", NearAll(Ev.mar, {<<s>> : s \in Ths}, LAMBDA k : SumOver(e.labels, LAMBDA x : AR[<<k[1], x>>]) \div nl))
                     \cup Clause("ar_over_scores", NearAll(Ev.aro, KL, LAMBDA k : SumOver(Ths, LAMBDA s : AR[<<s, k[1]>>]) \div N(Ths)))
                     \cup Clause("mar_over_scores", NearAll(Ev.maro, {<<>>}, LAMBDA k : SumOver(Ths \X e.labels, LAMBDA q : AR[q]) \div (nl * N(Ths))))
                     \cup Clause("curve", /\ Same(Keys(Ev.curve), NT \X e.labels)
                                          /\ \A i \in 1..Len(Ev.curve) : LET c == Ev.curve[i] IN
                                               /\ Len(c.v) = 101 /\ Len(c.s) = 101
                                               /\ \A k \in 0..100 : /\ Near(c.v[k + 1], CV[c.k][k + 1])
                                                                    /\ c.s[k + 1] = CurveS(R[c.k[2]], P[c.k], k)))
CK == {<<i, s>> : i \in NT, s \in Ths}
Wide == "keys" \in DOMAIN Ev     \* only the non-zero cells of a matrix are listed, with its keys and extent
Extent(L) == ~Wide \/ (Ev.extent = <<N(L)>> /\ ToSet(Ev.keys) = L)
LP == {<<g, q>> : g \in e.labels, q \in e.labels}
(* cells to be listed, given the matches m of every datum at a pair of thresholds *)
Listed(sub, m(_, _)) == IF ~Wide THEN {<<c[1], c[2], x[1], x[2]>> : c \in CK, x \in LP}
                        ELSE UNION {{<<c[1], c[2], y[3], y[4]>> : y \in m(c, i)} : c \in CK, i \in Idx(sub)}
DoCM == /\ Ev.e = "cm" /\ UNCHANGED e
        /\ LET sub == TLCEval(Sub)
               at == TLCEval([c \in CK |-> [i \in Idx(sub) |-> [m |-> MatchesAt(sub.ds[i], T(c[1]), c[2]), g |-> FreeGts(sub.ds[i], T(c[1]), c[2]),
                                                       q |-> FreePds(sub.ds[i], T(c[1]), c[2])]]])
           IN Report(Clause("cells", Extent(e.labels) /\ Same(Ev.cells, {<<k[1], k[2], k[3], k[4], SumOver(Idx(sub), LAMBDA i : N({y \in at[<<k[1], k[2]>>][i].m : y[3] = k[3] /\ y[4] = k[4]}))>> : k \in Listed(sub, LAMBDA c, i : at[c][i].m)}))
                     \cup Clause("unmatched_gt", Same(Ev.ugt, {<<c[1], c[2], x, SumOver(Idx(sub), LAMBDA i : N({y \in at[c][i].g : y[2] = x}))>> : c \in CK, x \in e.labels}))
                     \cup Clause("unmatched_pd", Same(Ev.upd, {<<c[1], c[2], x, SumOver(Idx(sub), LAMBDA i : N({y \in at[c][i].q : y[2] = x}))>> : c \in CK, x \in e.labels})))
(* matrix with examples: records [k, n, x] with x a sequence of <<u, ga, pa>> / <<u, ga>> / <<u, pa>> *)
ExIs(got, K, want(_)) == Same(Keys(got), K) /\ \A i \in 1..Len(got) : Same(got[i].x, want(got[i].k)) /\ got[i].n = Len(got[i].x)
DoCMX == /\ Ev.e = "cmx" /\ UNCHANGED e
         /\ LET sub == TLCEval(Sub)
                at == TLCEval([c \in CK |-> [i \in Idx(sub) |-> [m |-> MatchesAt(sub.ds[i], T(c[1]), c[2]), g |-> FreeGts(sub.ds[i], T(c[1]), c[2]),
                                                        q |-> FreePds(sub.ds[i], T(c[1]), c[2])]]])
                of(k, i) == at[<<k[1], k[2]>>][i]
                mm(k) == UNION {{<<sub.ds[i].u, y[1], y[2]>> : y \in {y \in of(k, i).m : y[3] = k[3] /\ y[4] = k[4]}} : i \in Idx(sub)}
                gg(k) == UNION {{<<sub.ds[i].u, y[1]>> : y \in {y \in of(k, i).g : y[2] = k[3]}} : i \in Idx(sub)}
                pp(k) == UNION {{<<sub.ds[i].u, y[1]>> : y \in {y \in of(k, i).q : y[2] = k[3]}} : i \in Idx(sub)}
            IN Report(Clause("example_cells", Extent(e.labels) /\ ExIs(Ev.cells, Listed(sub, LAMBDA c, i : at[c][i].m), mm))
                      \cup Clause("example_gt", ExIs(Ev.ugt, {<<c[1], c[2], x>> : c \in CK, x \in e.labels}, gg))
                      \cup Clause("example_pd", ExIs(Ev.upd, {<<c[1], c[2], x>> : c \in CK, x \in e.labels}, pp)))
(* examples: <<t, s, u, tp, fp, fn>> *)
DoEx == /\ Ev.e = "ex" /\ UNCHANGED e
        /\ LET sub == TLCEval(Sub)
               at(u) == sub.ds[CHOOSE i \in Idx(sub) : sub.ds[i].u = u]
           IN Report(Clause("examples", /\ Same([i \in 1..Len(Ev.rows) |-> <<Ev.rows[i][1], Ev.rows[i][2], Ev.rows[i][3]>>],
                                                {<<c[1], c[2], sub.ds[i].u>> : c \in CK, i \in Idx(sub)})
                                        /\ \A i \in 1..Len(Ev.rows) : LET r == Ev.rows[i] d == at(r[3]) fp == ExFP(d, T(r[1]), r[2]) IN
                                             /\ Same(r[4], ExTP(d, T(r[1]), r[2]))
                                             /\ BagOf(r[5]) = [a \in {q[1] : q \in fp} |-> N({q \in fp : q[1] = a})]
                                             /\ Same(r[6], ExFN(d, T(r[1]), r[2]))))
DoExPage == /\ Ev.e = "expage" /\ UNCHANGED e
            /\ LET ds == FoldLeft(LAMBDA a, x : IF x[3] \in ToSet(a) THEN a ELSE Append(a, x[3]), <<>>, Ev.all)
                   lo == IF Ev.o > Len(ds) THEN Len(ds) ELSE Ev.o
                   hi == IF Ev.n < 0 \/ lo + Ev.n > Len(ds) THEN Len(ds) ELSE lo + Ev.n
                   win == ToSet(SubSeq(ds, lo + 1, hi))
                   sub == Sub
               IN Report(Clause("examples", Ev.rows = SelectSeq(Ev.all, LAMBDA x : x[3] \in win))
                         \cup Clause("examples_total", ToSet(ds) = {sub.ds[i].u : i \in Idx(sub)}))
(* C09: an overlap computed directly, as a rational; both orders and all representations are listed *)
DoIou == /\ Ev.e = "iou" /\ UNCHANGED e
         /\ Report(Clause("iou", \A i \in 1..Len(Ev.got) : Ev.got[i] = Iou(Ev.kind, Ev.a, Ev.b)))
DoExc == Ev.e = "exc" /\ UNCHANGED e /\ Report({Ev.p \o ".exception"})
Init == l = 1 /\ e = [labels |-> {}, ds |-> <<>>]
Next == /\ l' = l + 1
        /\ \/ l <= Len(Trace) /\ (DoData \/ DoFilter \/ DoInfo \/ DoPR \/ DoAP \/ DoCM \/ DoCMX \/ DoEx \/ DoExPage \/ DoIou \/ DoExc)
           \/ l = Len(Trace) + 1 /\ UNCHANGED e /\ PrintT(<<"DONE", Len(Trace)>>)
Spec == Init /\ [][Next]_<<l, e>>
=============================================================================
