-------------------------------- MODULE Chol --------------------------------
(* Cholesky factorization A = L*L' (lower) or U'*U (upper), plain and with   *)
(* diagonal pivoting; solve, inverse and rank-one update.                    *)
EXTENDS Lu

Upper == Has("UPPER")
\* rows of the lower factor: L, or the transpose of U
LRows(a0, n, up) == Bind(a0, LAMBDA a : FMat(n, n, LAMBDA i, j : IF j > i THEN FZero ELSE IF up THEN a[j][i] ELSE a[i][j]))
\* the symmetric matrix in the named triangle, as rows of pairs
FSym(a0, n, up) == Bind(a0, LAMBDA a : FMat(n, n, LAMBDA i, j : IF InTri(up, i, j) THEN a[i][j] ELSE a[j][i]))
\* the columns of an inverse lower triangle etc. are never formed: all relations are products

\* a vector z with z'Az <= 0 (A and z integer valued): certificate that A is not positive definite
NotPD(a, n, z) ==
    /\ \E i \in Rng(n) : z[i + 1] # 0
    /\ SumF([i \in Rng(n) |-> z[i + 1] * SumF([j \in Rng(n) |-> (a[i][j][1] \div ONEH) * z[j + 1]])]) <= 0
IntValued(a, n) == \A i \in Rng(n) : \A j \in Rng(n) : a[i][j][2] = 0 /\ a[i][j][1] % ONEH = 0

CholFactor(op) ==
    /\ IsCall(op) /\ ~HasKey("P")
    /\ IF E.A.r # E.A.c THEN Refused
       ELSE LET A == E.A  n == A.r  up == Upper
            IN  \E a0 \in {FSym(Rows(mem[A.b], A), n, up)} : \E a \in {Rows(Obs(A.b), A)} :
                /\ Frame({A.b}) /\ Untouched(A, LAMBDA i, j : InTri(up, i, j))
                /\ IF HasKey("cert") THEN IntValued(a0, n) /\ NotPD(a0, n, E.cert) /\ Bad
                   ELSE /\ Good
                        /\ \E l \in {LRows(a, n, up)} :
                             /\ \A i \in Rng(n) : FU(l[i][i]) > 0
                             /\ \A i \in Rng(n) : \A j \in 0..i : Near(FDot(l[i], l[j], j + 1), FU(a0[i][j]), n)
                /\ Step
\* with diagonal pivoting; the factorization stops when no diagonal exceeds the threshold.
\* E.stop (optional): the absolute threshold is 2^-stop
CholPivot(op) ==
    /\ IsCall(op) /\ HasKey("P")
    /\ IF E.A.r # E.A.c \/ E.P.n # E.A.r THEN Refused
       ELSE LET A == E.A  P == E.P  n == A.r  up == Upper
            IN  \E a0 \in {FSym(Rows(mem[A.b], A), n, up)} : \E a \in {Rows(Obs(A.b), A)} :
                \E l \in {LRows(a, n, up)} :
                \E rk \in {Cardinality({i \in Rng(n) : l[i][i] # FZero})} :
                \E q \in {[i \in 1..rk |-> Obs(P.b)[P.o + i]]} :
                /\ E.err = 0
                /\ E.ret = IF rk = n THEN 0 ELSE rk
                /\ Frame({A.b, P.b}) /\ Untouched(A, LAMBDA i, j : InTri(up, i, j))
                /\ \A i \in 1..Len(Obs(P.b)) :
                     IF i > P.o /\ i <= P.o + n THEN TRUE ELSE Obs(P.b)[i] = mem[P.b][i]
                /\ \A i \in 1..rk : q[i] \in i..n
                \* trailing block is cleared, leading diagonal is positive, non-increasing and above the threshold
                /\ \A i \in Rng(n) : \A j \in Rng(n) :
                     IF i >= rk /\ j >= rk /\ j <= i THEN l[i][j] = FZero ELSE TRUE
                /\ \A i \in Rng(rk) : FU(l[i][i]) > 0 /\ (IF i > 0 THEN FU(l[i][i]) <= FU(l[i - 1][i - 1]) + 64 ELSE TRUE)
                /\ IF HasKey("stop")
                   THEN \A i \in Rng(rk) : FMul(l[i][i], l[i][i]) >= 2 ^ (22 - E.stop) - 64
                   ELSE TRUE
                /\ \E src \in {PivSrc(q, n, FALSE)} :
                     \A i \in Rng(n) : \A j \in 0..i :
                       IF i >= rk /\ j >= rk
                       THEN \* what the threshold cut off
                            LET d == FU(a0[src[i]][src[j]]) - FDot(l[i], l[j], rk)
                            IN  AbsV(d) <= Tol(n) + (IF HasKey("stop") THEN 2 ^ (22 - E.stop) ELSE 0)
                       ELSE Near(FDot(l[i], l[j], j + 1), FU(a0[src[i]][src[j]]), n)
                /\ Step

\* A = L*L' from the factor, as rows
CholProd(l0, n) == Bind(l0, LAMBDA l : FMat(n, n, LAMBDA i, j : UF(FDot(l[i], l[j], Min2(i, j) + 1))))
\* exact version on integers
CholProdI(l0, n) == Bind(l0, LAMBDA l : MkRows(n, n, LAMBDA i, j : Dot(l[i], l[j], Min2(i, j) + 1)))
LRowsI(a0, n, up) == Bind(a0, LAMBDA a : MkRows(n, n, LAMBDA i, j : IF j > i THEN 0 ELSE IF up THEN a[j][i] ELSE a[i][j]))

\* a pivot vector shorter than the matrix means rank deficiency: basic solution of the leading
\* block in the pivoted order, zero elsewhere
CholSolve(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  B == E.B  n == A.r  up == Upper  piv == HasKey("P")
       IN  IF piv /\ (Size(A) = 0 \/ Size(B) = 0) THEN Noop
           ELSE IF A.r # A.c \/ B.r # A.c THEN Refused
           ELSE \E l \in {LRowsI(Rows(mem[A.b], A), n, up)} :
                \E x \in {Cols(Obs(B.b), B)} : \E b \in {Rows(mem[B.b], B)} :
                \E rk \in {IF piv THEN E.P.n ELSE n} :
                \E src \in {IF piv THEN PivSrc(PivOf(mem[E.P.b], E.P), n, FALSE) ELSE Ident(n)} :
                \E m0 \in {CholProdI(l, n)} :
                \E xs \in {[c \in Rng(B.c) |-> [i \in Rng(n) |-> x[c][src[i]]]]} :
                /\ Good /\ Frame({B.b}) /\ Untouched(B, All)
                /\ \A i \in Rng(n) : \A c \in Rng(B.c) :
                      IF i < rk THEN Dot(m0[i], xs[c], rk) = b[src[i]][c] ELSE xs[c][i] = 0
                /\ Step
CholSolveF(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  B == E.B  n == A.r  up == Upper  piv == HasKey("P")
       IN  \E l \in {LRows(Rows(mem[A.b], A), n, up)} :
           \E x \in {Cols(Obs(B.b), B)} : \E b \in {Rows(mem[B.b], B)} :
           \E src \in {IF piv THEN PivSrc(PivOf(mem[E.P.b], E.P), n, FALSE) ELSE Ident(n)} :
           \E m0 \in {CholProd(l, n)} :
           \E xs \in {[c \in Rng(B.c) |-> [i \in Rng(n) |-> x[c][src[i]]]]} :
           /\ Good /\ Frame({B.b}) /\ Untouched(B, All)
           /\ \A i \in Rng(n) : \A c \in Rng(B.c) : Near(FDot(m0[i], xs[c], n), FU(b[src[i]][c]), 4 * n)
           /\ Step
CholInverse(op) ==
    /\ IsCall(op)
    /\ IF E.A.r # E.A.c THEN Refused
       ELSE LET A == E.A  n == A.r  up == Upper
            IN  \E l \in {LRows(Rows(mem[A.b], A), n, up)} :
                \E y \in {FSym(Rows(Obs(A.b), A), n, up)} :
                /\ Frame({A.b}) /\ Untouched(A, LAMBDA i, j : InTri(up, i, j))
                /\ IF \E i \in Rng(n) : l[i][i] = FZero THEN Bad
                   ELSE /\ Good
                        /\ \E m0 \in {CholProd(l, n)} :
                           \A i \in Rng(n) : \A j \in Rng(n) : Near(FDot(m0[i], y[j], n), UnitU(i, j), 4 * n)
                /\ Step
\* L1*L1' = L*L' + x*x';  x is used up
CholUpdate(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  X == E.X  n == A.r  up == Upper
       IN  IF Size(A) = 0 \/ Size(X) = 0 THEN Noop
           ELSE \E l \in {LRows(Rows(mem[A.b], A), n, up)} :
                \E k \in {LRows(Rows(Obs(A.b), A), n, up)} :
                \E x \in {Vec(mem[X.b], X)} :
                /\ Good /\ Frame({A.b, X.b}) /\ Untouched(A, LAMBDA i, j : InTri(up, i, j))
                /\ \E old \in {mem[X.b]}, new \in {Obs(X.b)} : \E own \in {{VPos(X, i) : i \in Rng(n)}} :
                     \A p \in 1..Len(old) : IF p \in own THEN TRUE ELSE new[p] = old[p]
                /\ \A i \in Rng(n) : \A j \in 0..i :
                     Near(FDot(k[i], k[j], j + 1), FDot(l[i], l[j], j + 1) + FMul(x[i], x[j]), n)
                /\ Step

CholNext == \/ CholFactor("cholfactor") \/ CholFactor("cholesky") \/ CholFactor("cholfactor_w")
            \/ CholPivot("cholfactor") \/ CholPivot("cholfactor_w")
            \/ CholSolve("cholsolve") \/ CholSolveF("cholsolve_f")
            \/ CholInverse("cholinverse") \/ CholInverse("cholinverse_w") \/ CholUpdate("cholupdate")
=============================================================================
