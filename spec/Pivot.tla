------------------------------- MODULE Pivot -------------------------------
(* Pivot vectors: a sequence p of 1-based exchange targets.                  *)
(* Forward application exchanges k with p[k]-1 for k = 0,1,...; backward     *)
(* application runs from the last index and the last row (column) upwards.   *)
EXTENDS Blas1, SequencesExt

Ident(n) == [i \in Rng(n) |-> i]
Exchange(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
\* index function src of a sequence of exchanges: new line i is old line src[i]
SrcOf(n, sw) == FoldLeft(LAMBDA s, e : Exchange(s, e[1], e[2]), Ident(n), sw)
FwdSwaps(p) == [k \in 1..Len(p) |-> <<k - 1, p[k] - 1>>]
BwdSwaps(p, n) == [t \in 1..Len(p) |-> <<n - t, p[Len(p) + 1 - t] - 1>>]
\* pivots that are not positive denote no exchange
Real(sw) == SelectSeq(sw, LAMBDA e : e[2] >= 0)
PivSrc(p, n, bwd) == Bind(IF bwd THEN BwdSwaps(p, n) ELSE FwdSwaps(p), LAMBDA sw : SrcOf(n, Real(sw)))
PivOf(d, P) == SubSeq(d, P.o + 1, P.o + P.n)

\* E.kind in {"rows","cols","upper","lower"}, E.dir in {"fwd","bwd"}
PivotOp(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  P == E.P  bwd == E.dir = "bwd"
           n == IF E.kind = "cols" THEN A.c ELSE A.r
       IN  IF n < P.n THEN Refused
           ELSE \E src \in {PivSrc(PivOf(mem[P.b], P), n, bwd)} :
                \E a \in {Rows(mem[A.b], A)} :
                  /\ Good /\ Frame({A.b})
                  /\ CASE E.kind = "rows" -> Updated(A, All, LAMBDA i, j : a[src[i]][j])
                       [] E.kind = "cols" -> Updated(A, All, LAMBDA i, j : a[i][src[j]])
                       [] OTHER -> LET up == E.kind = "upper"
                                   IN  \E s \in {SymOf(a, n, up)} :
                                        Updated(A, LAMBDA i, j : InTri(up, i, j), LAMBDA i, j : s[src[i]][src[j]])
                  /\ Step
\* pivot_sort: P lists the 1-based positions of D in order of absolute value
PivotSort(op) ==
    /\ IsCall(op)
    /\ IF NotVec(E.D) THEN E.ret < 0 /\ Unchanged /\ Step
       ELSE \E x \in {Vec(mem[E.D.b], E.D)} : \E q \in {PivOf(Obs(E.P.b), E.P)} :
            /\ Good /\ Frame({E.P.b})
            /\ \A i \in 1..Len(Obs(E.P.b)) :
                  IF i > E.P.o /\ i <= E.P.o + VLen(E.D) THEN TRUE ELSE Obs(E.P.b)[i] = mem[E.P.b][i]
            /\ {q[i] : i \in 1..VLen(E.D)} = 1..VLen(E.D)
            /\ \A i \in 1..(VLen(E.D) - 1) :
                  IF E.dirn < 0 THEN AbsV(x[q[i] - 1]) >= AbsV(x[q[i + 1] - 1])
                  ELSE AbsV(x[q[i] - 1]) <= AbsV(x[q[i + 1] - 1])
            /\ Step
PivotIndex(op) ==
    /\ IsCall(op)
    /\ \E x \in {Vec(mem[E.X.b], E.X)} :
       /\ Good /\ Unchanged /\ E.val - 1 \in DOMAIN x /\ AbsV(x[E.val - 1]) = MaxAbs(x) /\ Step

PivotNext == PivotOp("pivot") \/ PivotOp("pivot_rows") \/ PivotOp("pivot_cols")
             \/ PivotSort("pivot_sort") \/ PivotIndex("pivot_index")
=============================================================================
