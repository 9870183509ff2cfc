--------------------------- MODULE TextOverlapMC ---------------------------
(* All small texts: the scores lie in their ranges, identical texts score one, references only help, and the recurrences mean what they should. *)
EXTENDS TextOverlap
CONSTANTS Vocab, MaxC, MaxR
VARIABLES c, refs
Texts(k) == UNION {[1..n -> Vocab] : n \in 0..k}
Init == c \in Texts(MaxC) /\ refs = <<>>
Next == /\ Len(refs) < 2 /\ UNCHANGED c
        /\ \E r \in Texts(MaxR) : refs' = Append(refs, r)
Spec == Init /\ [][Next]_<<c, refs>>
Types == {"rouge1", "rouge2", "rougeL"}
Orders == {{1}, {2}, {1, 2}, {1, 2, 3}}
Has == refs # <<>>
Ranges == Has => /\ \A k \in Types : RLeq(Zero, Rouge(k, c, refs)) /\ RLeq(Rouge(k, c, refs), One)
                 /\ \A S \in Orders : BleuPow(c, refs, S) \in 0..1000000
Identity == Has /\ c # <<>> /\ (\E i \in 1..Len(refs) : refs[i] = c) =>
            /\ Rouge("rouge1", c, refs) = One /\ Rouge("rougeL", c, refs) = One /\ (Len(c) > 1 => Rouge("rouge2", c, refs) = One)
            /\ \A S \in Orders : (\A n \in S : n <= Len(c)) => BleuPow(c, refs, S) = 1000000
(* and only then (up to word order for unigrams) *)
OnlyIdentity == Has /\ Rouge("rougeL", c, refs) = One => \E i \in 1..Len(refs) : refs[i] = c
Symmetric == Len(refs) = 1 => \A k \in Types : Rouge(k, c, refs) = Rouge(k, refs[1], <<c>>)
RefOrder == Len(refs) = 2 => /\ \A k \in Types : Rouge(k, c, refs) = Rouge(k, c, Reverse(refs))
                             /\ \A S \in Orders : BleuPow(c, refs, S) = BleuPow(c, Reverse(refs), S)
MoreHelps == Len(refs) = 2 => /\ \A k \in Types : RLeq(Rouge(k, c, <<refs[1]>>), Rouge(k, c, refs))
                              /\ \A n \in 1..3 : Clip(c, <<refs[1]>>, n) <= Clip(c, refs, n)
(* definition of the longest common subsequence *)
Picks(s) == {LET ix == SetToSortSeq(I, LAMBDA a, b : a < b) IN [k \in 1..Len(ix) |-> s[ix[k]]] : I \in SUBSET (1..Len(s))}
LcsDef(a, b) == MaxOver(Picks(a) \cap Picks(b), LAMBDA s : Len(s))
LcsWorks == Has => Lcs(c, refs[1]) = LcsDef(c, refs[1]) /\ LcsDP(c, refs[1]) = LcsDef(c, refs[1])
Nothing == Has /\ ToSet(c) \cap UNION {ToSet(refs[i]) : i \in 1..Len(refs)} = {} =>
           (\A k \in Types : Rouge(k, c, refs) = Zero) /\ (\A S \in Orders : BleuPow(c, refs, S) = 0)
(* exp(-x): decreasing, between 1-x and 1 - x + x^2/2 *)
ASSUME ExpOk == \A n \in 0..6, d \in 1..6 : LET v == ExpNeg(n, d) x == (1000000 * n) \div d IN
           n <= 2 * d => v >= 1000000 - x - 3 /\ (n <= d => v <= 1000000 - x + MulMicro(x, x) \div 2 + 10) /\ ExpNeg(n + 1, d) < v
=============================================================================
