-------------------------------- MODULE Rat --------------------------------
(* Exact rationals as reduced pairs <<num, den>>, den > 0 (TLC integers have 32 bits: keep denominators small). *)
EXTENDS Integers, Sequences, SequencesExt
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
Rat(n, d) == LET g == Gcd(AbsI(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
Zero == <<0, 1>>
One == <<1, 1>>
(* ratio of naturals, zero when undefined *)
Ratio(n, d) == IF d = 0 THEN Zero ELSE Rat(n, d)
RAdd(x, y) == LET g == Gcd(x[2], y[2]) IN Rat(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), (x[2] \div g) * y[2])
RDivInt(x, k) == LET g == Gcd(AbsI(x[1]), k) IN IF x[1] = 0 THEN Zero ELSE <<x[1] \div g, x[2] * (k \div g)>>
RLess(x, y) == x[1] * y[2] < y[1] * x[2]
RLeq(x, y) == x[1] * y[2] <= y[1] * x[2]
RMax(x, y) == IF RLess(x, y) THEN y ELSE x
RSum(s) == FoldLeft(LAMBDA a, b : RAdd(a, b), Zero, s)
RMean(s) == IF s = <<>> THEN Zero ELSE RDivInt(RSum(s), Len(s))
(* millionths, rounded down (long division: numerator and denominator below 2000000); means of millionths; equality up to rounding *)
Micro(x) == LET n == x[1] * 1000 IN 1000 * (n \div x[2]) + ((n % x[2]) * 1000) \div x[2]
MicroMean(s) == IF s = <<>> THEN 0 ELSE FoldLeft(LAMBDA a, b : a + b, 0, s) \div Len(s)
Near(a, b) == AbsI(a - b) <= 3
(* harmonic mean of precision tp/(tp+fp) and recall tp/(tp+fn) *)
F1(tp, fp, fn) == Ratio(2 * tp, 2 * tp + fp + fn)
=============================================================================
