---------------------------- MODULE TextOverlap ----------------------------
(***************************************************************************)
(* Text-overlap scores (C23).  A text is a sequence of words [t, i, u]:    *)
(* stem t, inflection i, and whether it is written in upper case.          *)
(* Separators and periods are not part of a text.  BLEU compares words as  *)
(* written; ROUGE ignores case and, with stemming, the inflection.         *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, FiniteSetsExt, TLC
N(S) == Cardinality(S)
SumOver(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
MinI(a, b) == IF a < b THEN a ELSE b
MaxOver(S, f(_)) == FoldSet(LAMBDA x, a : IF f(x) > a THEN f(x) ELSE a, 0, S)
Map(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
AsWritten(s) == Map(s, LAMBDA w : <<w.t, w.i, w.u>>)
ForRouge(s, stem) == Map(s, LAMBDA w : IF stem THEN <<w.t>> ELSE <<w.t, w.i>>)

Grams(s, n) == IF Len(s) < n THEN <<>> ELSE [i \in 1..(Len(s) - n + 1) |-> SubSeq(s, i, i + n - 1)]
Count(q, g) == N({i \in 1..Len(q) : q[i] = g})
(* occurrences of n-grams of c that some single reference has as often *)
Clip(c, refs, n) == LET q == Grams(c, n) IN
  SumOver(ToSet(q), LAMBDA g : MinI(Count(q, g), MaxOver(1..Len(refs), LAMBDA r : Count(Grams(refs[r], n), g))))

-----------------------------------------------------------------------------
(* BLEU with equal weights on the orders S (a non-empty set): the |S|-th power of the score, in millionths *)
GramPrec(c, refs, n) == Ratio(Clip(c, refs, n), Len(Grams(c, n)))
Dist(c, r) == AbsI(Len(c) - Len(r))
Closest(c, refs) == LET S == {i \in 1..Len(refs) : \A j \in 1..Len(refs) : Dist(c, refs[i]) <= Dist(c, refs[j])}
                    IN Len(refs[CHOOSE i \in S : \A j \in S : Len(refs[i]) <= Len(refs[j])])
MulMicro(a, b) == ((a \div 1000) * b + ((a % 1000) * b) \div 1000) \div 1000
RECURSIVE ExpTerms(_, _, _, _, _)
ExpTerms(n, d, i, term, acc) == IF term = 0 \/ i > 40 THEN acc
                                ELSE LET t == (term * n) \div (d * i) IN ExpTerms(n, d, i + 1, t, acc + (IF i % 2 = 1 THEN -t ELSE t))
RECURSIVE ExpNeg(_, _)
ExpNeg(n, d) == IF n > d THEN MulMicro(367879, ExpNeg(n - d, d)) ELSE ExpTerms(n, d, 1, 1000000, 1000000)      \* exp(-n/d)
Brevity(c, refs) == LET r == Closest(c, refs) IN IF Len(c) >= r THEN 1000000 ELSE ExpNeg(r - Len(c), Len(c))
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN 1000000 ELSE MulMicro(x, Power(x, k - 1))
BleuPow(c, refs, S) == IF Clip(c, refs, 1) = 0 THEN 0
                       ELSE LET p == FoldSet(LAMBDA n, a : MulMicro(a, Micro(GramPrec(c, refs, n))), 1000000, S)
                            IN MulMicro(Power(Brevity(c, refs), N(S)), p)

-----------------------------------------------------------------------------
(* ROUGE: F-measure against the best reference *)
(* longest common subsequence: by its definition, and by the recurrence *)
RECURSIVE Lcs(_, _)
Lcs(a, b) == IF a = <<>> \/ b = <<>> THEN 0
             ELSE IF Head(a) = Head(b) THEN 1 + Lcs(Tail(a), Tail(b))
             ELSE LET x == Lcs(Tail(a), b) y == Lcs(a, Tail(b)) IN IF x > y THEN x ELSE y
(* the same by rows, for longer texts *)
LcsRow(row, x, b) == FoldLeft(LAMBDA acc, j : Append(acc, IF b[j] = x THEN (IF j = 1 THEN 0 ELSE row[j - 1]) + 1
                                                         ELSE LET l == IF j = 1 THEN 0 ELSE acc[j - 1] IN IF l > row[j] THEN l ELSE row[j]),
                              <<>>, [j \in 1..Len(b) |-> j])
LcsDP(a, b) == IF a = <<>> \/ b = <<>> THEN 0
               ELSE FoldLeft(LAMBDA row, i : LcsRow(row, a[i], b), [j \in 1..Len(b) |-> 0], [i \in 1..Len(a) |-> i])[Len(b)]
RougeN(c, r, n) == Ratio(2 * Clip(c, <<r>>, n), Len(Grams(c, n)) + Len(Grams(r, n)))
RougeL(c, r) == Ratio(2 * LcsDP(c, r), Len(c) + Len(r))
One1(type, c, r) == CASE type = "rouge1" -> RougeN(c, r, 1) [] type = "rouge2" -> RougeN(c, r, 2) [] type = "rouge3" -> RougeN(c, r, 3) [] OTHER -> RougeL(c, r)
Rouge(type, c, refs) == FoldLeft(LAMBDA a, r : RMax(a, One1(type, c, r)), Zero, refs)
=============================================================================
