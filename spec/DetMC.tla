------------------------------- MODULE DetMC -------------------------------
(***************************************************************************)
(* All small scenes (every overlap matrix, labelling, score pattern): the  *)
(* mechanism (ranking, overlap bounds from running maxima, running counts  *)
(* over files, recall bins) equals the meaning in Det, and matchings and   *)
(* matrices obey their laws.                                               *)
(***************************************************************************)
EXTENDS Det
CONSTANTS NG, NP, Labels, Levels, Multi
VARIABLES d, lab
Nothing == [u |-> 0]
Init == d = Nothing /\ lab \in [g : [1..NG -> Labels], p : [1..NP -> Labels], z : {0, 1}]
(* predictions have distinct scores NP, NP-1, ..., the last possibly 0; with Multi the first one has a second label *)
Scene(m) ==
  WithM([u |-> 1, m |-> 0, gts |-> [i \in 1..NG |-> [a |-> i, l |-> lab.g[i], m |-> 0]],
         pds |-> [i \in 1..NP |-> [a |-> NP + i, m |-> 0,
                    ls |-> <<[l |-> lab.p[i], s |-> 10 * (NP - i + lab.z)]>> \o
                           (IF Multi /\ i = 1 THEN <<[l |-> CHOOSE x \in Labels : x # lab.p[i], s |-> 7]>> ELSE <<>>)]],
         iou |-> [q \in DOMAIN m |-> Ratio(m[q], Levels)], M |-> {}])
NoTies(m) == \A p \in 1..NP : \A i, j \in 1..NG : (i # j /\ lab.g[i] = lab.g[j] /\ m[<<NP + p, i>>] # 0) => m[<<NP + p, i>>] # m[<<NP + p, j>>]
Next == /\ d = Nothing /\ UNCHANGED lab
        /\ \E m \in [((NP + 1)..(2 * NP)) \X (1..NG) -> 0..Levels] : NoTies(m) /\ d' = Scene(m)
Spec == Init /\ [][Next]_<<d, lab>>
Built == d # Nothing
E == [labels |-> Labels, ds |-> <<d>>]
Ts == {Ratio(k, Levels) : k \in 1..Levels}
Ss == {0, 1, 10, 15, 20}

-----------------------------------------------------------------------------
(* mechanism: entries of a label in rank order; bound of an entry = overlap of the previous record holder *)
Order(R) == SetToSortSeq(R, LAMBDA x, y : Before(x, y) \/ (~Before(y, x) /\ x.pa < y.pa))
RECURSIVE Bound(_, _, _, _)
Bound(q, k, best, acc) ==   \* q entries of one ground truth in order; best = running maximum, acc = bounds so far (2 = never)
  IF k > Len(q) THEN acc
  ELSE IF k = 1 THEN Bound(q, 2, q[1].iou, <<Zero>>)
  ELSE IF RLess(best, q[k].iou) THEN Bound(q, k + 1, q[k].iou, Append(acc, best))
  ELSE Bound(q, k + 1, best, Append(acc, <<2, 1>>))
MWinners(R, t) == UNION {LET q == Order({x \in R : x.ga = g}) b == Bound(q, 1, Zero, <<>>)
                         IN {q[k] : k \in {k \in 1..Len(q) : q[k].s > 0 /\ RLeq(t, q[k].iou) /\ RLess(b[k], t)}} : g \in 1..NG}
BoundsWork == Built => \A l \in Labels, t \in Ts : MWinners(Ranked(E, l), t) = Winners(Ranked(E, l), t)
(* running counts over two files: <<total, tp>> carried over, the maximum precision per bin kept *)
Bins == {0, 33, 50, 66, 100}
Chunk(q, from, to, st, W, ng) ==
  FoldLeft(LAMBDA a, k : LET tot == a[1] + 1
                             tp == a[2] + (IF q[k] \in W THEN 1 ELSE 0)
                             bin == IF q[k] \in W THEN (100 * tp) \div ng ELSE 0
                             pr == IF q[k] \in W THEN Ratio(tp, tot) ELSE Zero
                         IN <<tot, tp, [a[3] EXCEPT ![bin] = RMax(@, pr)]>>,
           st, [k \in 1..(to - from + 1) |-> from + k - 1])
CurveWorks == Built => \A l \in Labels, t \in Ts, cut \in 0..NP :
  LET R == Ranked(E, l)
      q == Order(R)
      W == Winners(R, t)
      ng == N(GtsOf(E, l))
      c == IF cut > Len(q) THEN Len(q) ELSE cut
      st == Chunk(q, c + 1, Len(q), Chunk(q, 1, c, <<0, 0, [k \in Bins |-> Zero]>>, W, ng), W, ng)
      P == Points(R, W, ng)
  IN \A k \in Bins : FoldSet(LAMBDA j, a : RMax(a, st[3][j]), Zero, {j \in Bins : j >= k}) = CurveP(P, k)
CountLaws == Built => \A l \in Labels, t \in Ts, s \in Ss :
  LET R == Ranked(E, l) c == CountsR(R, Winners(R, t), N(GtsOf(E, l)), s)
      c2 == CountsR(R, Winners(R, t), N(GtsOf(E, l)), s + 5)
  IN /\ c.tp >= 0 /\ c.fp >= 0 /\ c.fn >= 0 /\ c.tp + c.fn = N(GtsOf(E, l))
     /\ c2.tp <= c.tp /\ c2.fp <= c.fp
     /\ \A u \in Ts : RLeq(t, u) => CountsR(R, Winners(R, u), N(GtsOf(E, l)), s).tp <= c.tp
(* the matching is one-to-one, maximal, and the matrices account for everything *)
MatchLaws == Built =>
             /\ \A q, r \in d.M : q # r => q[1] # r[1] /\ q[2] # r[2]
             /\ \A g \in 1..NG, p \in (NP + 1)..(2 * NP) :
                  d.iou[<<p, g>>] # Zero => \E q \in d.M : q[1] = g \/ q[2] = p
MatrixLaws == Built => \A t \in Ts, s \in Ss :
  LET m == MatchesAt(d, t, s) fg == FreeGts(d, t, s) fp == FreePds(d, t, s) IN
  /\ {q[1] : q \in m} \cap {q[1] : q \in fg} = {} /\ {q[1] : q \in m} \cup {q[1] : q \in fg} = 1..NG
  /\ \A l \in Labels : N({q \in m : q[4] = l}) + N({q \in fp : q[2] = l})
                       = SumOver(1..NP, LAMBDA j : N({k \in 1..Len(d.pds[j].ls) : d.pds[j].ls[k].l = l /\ Positive(d.pds[j].ls[k], s)}))
  /\ ~Multi => \A l \in Labels : N({q \in m : q[3] = l}) + N({q \in fg : q[2] = l}) = N(GtsOf(E, l))
  /\ ~Multi => ExFN(d, t, s) \cap {q[1] : q \in ExTP(d, t, s)} = {}
=============================================================================
