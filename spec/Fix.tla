-------------------------------- MODULE Fix --------------------------------
(* Fixed-point view of floating-point storage.  A number is a pair <<h, l>>  *)
(* denoting h*2^-HB + l*2^-(HB+15), |l| <= 2^14 (the trace encoder rounds to *)
(* the nearest such number).  Sums of products are computed to units of      *)
(* 2^-(2 HB); an identity between sums of n products is accepted when both   *)
(* sides agree within Tol(n) units.                                          *)
EXTENDS Pivot

HB == 11
ONEH == 2048                       \* 1.0 is <<ONEH, 0>>
F15 == 32768
FZero == <<0, 0>>
FOne == <<ONEH, 0>>
Tol(n) == 96 + 24 * n              \* units of 2^-22

\* Numbers outside the domain of the encoding (not-a-numbers, unset storage) are mapped to odd
\* constants inside it, so that identities they take part in fail instead of being undecided.
Wild == 60000007
\* a number in units of 2^-22
FU(x) == IF x[1] > 524288 \/ x[1] < -524288 THEN 9 * Wild ELSE x[1] * 2048 + x[2] \div 16
\* and back
UF(s) == <<(s + 1024) \div 2048, (((s + 1024) % 2048) - 1024) * 16>>
FNeg(x) == <<-x[1], -x[2]>>
InDom(x) == x[1] <= 131072 /\ x[1] >= -131072
FMul(x, y) == IF ~InDom(x) \/ ~InDom(y) THEN Wild
              ELSE IF AbsV(x[1]) > 2100000000 \div (AbsV(y[1]) + 1) THEN Wild
              ELSE x[1] * y[1] + (x[1] * y[2]) \div F15 + (x[2] * y[1]) \div F15
FDot(a, b, n) == FoldFunction(+, 0, [k \in 0..(n - 1) |-> FMul(a[k], b[k])])
FAbs1(x) == AbsV(x[1])
Near(s, t, n) == AbsV(s - t) <= Tol(n)
Unit(i, j) == IF i = j THEN FOne ELSE FZero
UnitU(i, j) == IF i = j THEN 4194304 ELSE 0   \* in units

\* m x n product of rows a (m x k) with columns given by b[j] (n of them), in units
FMat(m, n, f(_, _)) == TLCEval([i \in Rng(m) |-> TLCEval([j \in Rng(n) |-> f(i, j)])])
\* product as numbers: rows a, columns b
FProd(a0, b0, m, n, k) == Bind(a0, LAMBDA a : Bind(b0, LAMBDA b : FMat(m, n, LAMBDA i, j : UF(FDot(a[i], b[j], k)))))
\* rows <-> columns
FT(a0, m, n) == Bind(a0, LAMBDA a : FMat(n, m, LAMBDA i, j : a[j][i]))
\* product of rows a with columns b equals rows c
ProdIs(a, b, c, m, n, k) == \A i \in Rng(m) : \A j \in Rng(n) : Near(FDot(a[i], b[j], k), FU(c[i][j]), k)
\* the k vectors a[0..k-1] of length n are orthonormal
Orthonormal(a, k, n) == \A i \in Rng(k) : \A j \in 0..i : Near(FDot(a[i], a[j], n), UnitU(i, j), n)
SameF(x, y) == AbsV(FU(x) - FU(y)) <= Tol(1)
=============================================================================
