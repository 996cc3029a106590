--------------------------------- MODULE Lu ---------------------------------
(* LU factorization, solve and inverse: the relation every call must satisfy *)
EXTENDS Fix

LofRows(a, m, k) == FMat(m, k, LAMBDA i, j : IF i = j THEN FOne ELSE IF i > j THEN a[i][j] ELSE FZero)
UofCols(a, k, n) == FMat(n, k, LAMBDA j, i : IF i <= j THEN a[i][j] ELSE FZero)

LuFactor(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  k == Min2(A.r, A.c)  piv == HasKey("P")
       IN  \E a0 \in {Rows(mem[A.b], A)} : \E a \in {Rows(Obs(A.b), A)} :
           \E q \in {IF piv THEN PivOf(Obs(E.P.b), E.P) ELSE [i \in 1..k |-> i]} :
            /\ Frame(IF piv THEN {A.b, E.P.b} ELSE {A.b})
            /\ Untouched(A, All)
            /\ IF piv THEN /\ \A i \in 1..Len(Obs(E.P.b)) :
                                IF i > E.P.o /\ i <= E.P.o + E.P.n THEN TRUE ELSE Obs(E.P.b)[i] = mem[E.P.b][i]
                           /\ \A i \in 1..k : q[i] \in i..A.r
                      ELSE TRUE
            /\ LET sing == \E i \in Rng(k) : a[i][i] = FZero
               IN  IF sing THEN Bad ELSE Good
            /\ \* without pivoting there is no factorization when a pivot vanishes
               IF ~piv /\ E.ret < 0 THEN TRUE
               ELSE /\ \E src \in {PivSrc(q, A.r, FALSE)} :
                       \E l \in {LofRows(a, A.r, k)} : \E u \in {UofCols(a, k, A.c)} :
                       \A i \in Rng(A.r) : \A j \in Rng(A.c) : Near(FDot(l[i], u[j], k), FU(a0[src[i]][j]), k)
                    /\ IF piv THEN \A i \in Rng(A.r) : \A j \in Rng(k) :
                                     IF i > j THEN AbsV(FU(a[i][j])) <= 4194304 + 8 ELSE TRUE
                              ELSE TRUE
            /\ Step

LuBadShape == E.B.r # E.A.c \/ E.A.r # E.A.c
\* exact on integer data: (P'LU) X = B or its transpose
LuSolve(op) ==
    /\ IsCall(op)
    /\ IF LuBadShape THEN Refused
       ELSE LET A == E.A  B == E.B  n == A.r  piv == HasKey("P")
            IN  \E a \in {Rows(mem[A.b], A)} : \E x \in {Rows(Obs(B.b), B)} : \E b \in {Rows(mem[B.b], B)} :
                \E src \in {IF piv THEN PivSrc(PivOf(mem[E.P.b], E.P), n, FALSE) ELSE Ident(n)} :
                 /\ Good /\ Frame({B.b}) /\ Untouched(B, All)
                 /\ \E m0 \in {MkRows(n, n, LAMBDA i, j :      \* rows of P*A = L*U
                        SumF([k \in 0..Min2(i, j) |-> (IF k = i THEN 1 ELSE a[i][k]) * a[k][j]]))} :
                    IF Has("TRANSA")
                    THEN \* A' x = b: sum_i A[i][j] x[i]; row src[i] of A is row i of LU
                         \A j \in Rng(n) : \A c \in Rng(B.c) :
                           SumF([i \in Rng(n) |-> m0[i][j] * x[src[i]][c]]) = b[j][c]
                    ELSE \A i \in Rng(n) : \A c \in Rng(B.c) :
                           SumF([j \in Rng(n) |-> m0[i][j] * x[j][c]]) = b[src[i]][c]
                 /\ Step
\* as above in fixed point (rounded factors)
LuSolveF(op) ==
    /\ IsCall(op)
    /\ ~LuBadShape
    /\ LET A == E.A  B == E.B  n == A.r  piv == HasKey("P")
       IN  \E a \in {Rows(mem[A.b], A)} : \E x \in {Cols(Obs(B.b), B)} : \E b \in {Rows(mem[B.b], B)} :
           \E src \in {IF piv THEN PivSrc(PivOf(mem[E.P.b], E.P), n, FALSE) ELSE Ident(n)} :
            /\ Good /\ Frame({B.b}) /\ Untouched(B, All)
            /\ \E m0 \in {FProd(LofRows(a, n, n), UofCols(a, n, n), n, n, n)} :
               IF Has("TRANSA")
               THEN \E mt \in {FT(m0, n, n)} : \E xs \in {[c \in Rng(B.c) |-> [i \in Rng(n) |-> x[c][src[i]]]]} :
                    \A j \in Rng(n) : \A c \in Rng(B.c) : Near(FDot(mt[j], xs[c], n), FU(b[j][c]), 4 * n)
               ELSE \A i \in Rng(n) : \A c \in Rng(B.c) : Near(FDot(m0[i], x[c], n), FU(b[src[i]][c]), 4 * n)
            /\ Step
LuInverse(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  n == A.r  piv == HasKey("P")
       IN  IF A.r # A.c \/ (piv /\ E.P.n # A.r) THEN Refused
           ELSE \E a \in {Rows(mem[A.b], A)} : \E y \in {Cols(Obs(A.b), A)} :
                \E src \in {IF piv THEN PivSrc(PivOf(mem[E.P.b], E.P), n, FALSE) ELSE Ident(n)} :
                /\ Frame({A.b}) /\ Untouched(A, All)
                /\ IF \E i \in Rng(n) : a[i][i] = FZero THEN Bad
                   ELSE /\ Good
                        /\ \E m0 \in {FProd(LofRows(a, n, n), UofCols(a, n, n), n, n, n)} :
                           \* P A = m0, A*Y = I  <=>  m0*Y = P
                           \A i \in Rng(n) : \A j \in Rng(n) :
                               Near(FDot(m0[i], y[j], n), UnitU(src[i], j), 4 * n)
                /\ Step

LuNext == LuFactor("lufactor") \/ LuSolve("lusolve") \/ LuSolveF("lusolve_f") \/ LuInverse("luinverse")
          \/ LuInverse("luinverse_w")
=============================================================================
