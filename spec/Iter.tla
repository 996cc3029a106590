--------------------------------- MODULE Iter ---------------------------------
(* Iterative solvers and incomplete factorizations of sparse matrices.       *)
(* Entries of the matrix are integers; vectors and factors are in fixed      *)
(* point (Fix.tla).                                                          *)
EXTENDS Sparse

FInt(v) == <<v * ONEH, 0>>
FRows(a0, m, n) == Bind(a0, LAMBDA a : FMat(m, n, LAMBDA i, j : FInt(a[i][j])))
FVec(b, v) == [k \in Rng(VLen(v)) |-> Vec(b, v)[k]]
\* b - A*x and A*x as numbers
ItRes(a, x, b, m, n) == TLCEval([i \in Rng(m) |-> UF(FU(b[i]) - FDot(a[i], x, n))])
ItMul(a, x, m, n) == TLCEval([i \in Rng(m) |-> UF(FDot(a[i], x, n))])

ItSquare == {"it_cgrad", "it_pcgrad", "it_gmres", "it_pgmres"}
ItSym == {"it_cgrad", "it_pcgrad"}
ItGm == {"it_gmres", "it_pgmres"}
ItShape(o) == /\ o[2] # 2
              /\ IF E.op \in ItSquare THEN o[3] = o[4] ELSE TRUE
              /\ VLen(E.B) = o[3] /\ VLen(E.X) = o[4]
\* columns of GMRES: as configured, as many as the workspace has room for, not more than dimensions
ItCols(n) == LET m == IF HasKey("m") THEN E.m ELSE 6
                 w == IF HasKey("wp") THEN (((n + 3) * (m + 2) * E.wp) \div 100) \div (n + 3) - 2 ELSE m
             IN  IF w < 3 THEN 0 ELSE Min({w, n})
ItMax(m, n) == IF HasKey("maxiter") THEN E.maxiter
               ELSE IF E.op = "it_cgrad" THEN 4 * n ELSE IF E.op \in ItGm THEN 5 * n ELSE 2 * m
ItRoom(n) == IF E.op \in ItGm THEN ItCols(n) > 0 ELSE IF HasKey("wp") THEN E.wp = 100 ELSE TRUE
\* coarse tolerances are met in the number of steps of exact arithmetic
ItCoarse == HasKey("stop") \/ HasKey("smult")
\* square of the tolerance in units of 2^-22, given that of the first residual
ItTol(s0) == IF HasKey("stop") THEN 2 ^ (22 - 2 * E.stop) ELSE IF HasKey("smult") THEN s0 \div 2 ^ (2 * E.smult) ELSE 0
\* normal equations multiply rounding of the residual by the matrix once more
ItNear(n) == IF E.op = "it_cgnr" THEN 16 * Tol(n) ELSE Tol(n)
\* products with a residual, which itself is rounded to 2^-22
ItOrth(s, n) == AbsV(s) <= 16 * Tol(n)
ItNearSq(s, t, n) == AbsV(s - t) <= ItNear(n) + t \div 4096

ItJudge(o, a, at, x0, x, b, m, n) ==
    \E r0 \in {ItRes(a, x0, b, m, n)}, r \in {ItRes(a, x, b, m, n)} :
    \* what is made small: the residual, or that of the normal equations
    \E z0 \in {IF E.op = "it_cgnr" THEN ItMul(at, r0, n, m) ELSE r0}, z \in {IF E.op = "it_cgnr" THEN ItMul(at, r, n, m) ELSE r} :
    \E k \in {IF E.op = "it_cgnr" THEN n ELSE m} :
    \E s \in {FDot(z, z, k)}, s0 \in {FDot(z0, z0, k)}, t \in {ItTol(FDot(r0, r0, m))}, it \in {E.iters}, mx \in {ItMax(m, n)} :
    /\ it >= 0 /\ it <= mx
    \* a solution is taken as it is
    /\ IF s0 = 0 THEN E.ret = 0 /\ it = 0 /\ E.resid = FZero /\ \A i \in Rng(n) : x[i] = x0[i]
       ELSE /\ it >= 1
            \* status
            /\ IF E.ret = 0
               THEN /\ E.err = 0
                    /\ s <= (IF E.op = "it_pcgrad" THEN 16 ELSE 1) * (t + t \div 256) + ItNear(n)
               ELSE /\ E.ret = -9 /\ E.err = 9 /\ (IF E.op = "it_cgnr" /\ ~ItCoarse THEN TRUE ELSE it = mx)
                    /\ IF E.op \in ItGm THEN ItCols(n) < n \/ mx < n ELSE IF ItCoarse THEN HasKey("maxiter") /\ mx < n
                            \* relative to rounding: not always reached
                            ELSE s <= ItNear(n)
            \* the residual reported is the one there is
            /\ IF E.op = "it_pcgrad" THEN E.resid[1] >= 0 ELSE E.resid[1] >= 0 /\ ItNearSq(s, FMul(E.resid, E.resid), n)
            \* optimal over the directions searched
            /\ IF E.op \in {"it_cgrad", "it_cgne", "it_cgnr"} THEN ItOrth(FDot(z, z0, k), n)
               ELSE IF E.op = "it_gmres" /\ it <= ItCols(n) THEN \E d \in {ItMul(a, r0, m, n)} : ItOrth(FDot(r, d, n), n)
               ELSE TRUE

\* with a complete factorization as preconditioner there is nothing to iterate
ItComplete(a, n) ==
    IF HasKey("F") /\ ItCoarse
    THEN \E f \in {Rows(mem[E.F.b], E.F)} :
         IF E.op = "it_pcgrad"
         THEN \E l \in {IF Up THEN FMat(n, n, LAMBDA i, j : IF j >= i THEN f[j][i] ELSE FZero)
                        ELSE FMat(n, n, LAMBDA i, j : IF j <= i THEN f[i][j] ELSE FZero)} :
              \E g \in {IF Up THEN FMat(n, n, LAMBDA i, j : IF j <= i THEN f[j][i] ELSE FZero) ELSE l} : ProdIs(g, g, a, n, n, n)
         ELSE ProdIs(FMat(n, n, LAMBDA i, j : IF j < i THEN f[i][j] ELSE Unit(i, j)),
                     FMat(n, n, LAMBDA j, i : IF i <= j THEN f[i][j] ELSE FZero), a, n, n, n)
    ELSE FALSE

ItSolve(op) ==
    /\ IsCall(op)
    /\ \E o \in {mem[E.x]} :
       IF ~ItShape(o) THEN Refused
       ELSE IF ~ItRoom(o[3]) THEN Refused
       ELSE \E m \in {o[3]}, n \in {o[4]} :
            \E ai \in {IF op \in ItSym THEN SymOf(SpRows(o), n, Up) ELSE SpRows(o)} :
            \E a \in {FRows(ai, m, n)}, x0 \in {FVec(mem[E.X.b], E.X)}, x \in {FVec(Obs(E.X.b), E.X)}, b \in {FVec(mem[E.B.b], E.B)} :
            /\ Frame({E.X.b})
            /\ UpdatedV(E.X, LAMBDA i : x[i])
            /\ ItJudge(o, a, FT(a, m, n), x0, x, b, m, n)
            /\ IF ItComplete(a, n) THEN E.iters <= 1 ELSE TRUE
            /\ Step

\* incomplete factorizations: in place, same positions, product right at these
ItPos(h) == {<<e[1], e[2]>> : e \in SpEnts(h)}
ItForm(h, o) == SubSeq(h, 1, 15) = SubSeq(o, 1, 15) /\ ItPos(h) = ItPos(o)
ItDiag(S, n) == \A i \in Rng(n) : <<i, i>> \in S
ItOut == Rows(Obs(E.F.b), E.F)
ItIluz ==
    /\ IsCall("it_iluz")
    /\ \E o \in {mem[E.x]} : \E n \in {o[3]}, S \in {ItPos(o)} :
       IF o[2] = 2 \/ o[3] # o[4] THEN E.ret < 0 /\ Frame({E.F.b}) /\ Step
       ELSE IF ~ItDiag(S, n) THEN E.ret < 0 /\ Frame({E.F.b}) /\ Step
       ELSE /\ E.ret = 0 /\ Frame({E.x, E.F.b}) /\ ItForm(Obs(E.x), o)
            /\ \E f \in {ItOut}, a \in {SpRows(o)} :
               \E l \in {FMat(n, n, LAMBDA i, j : IF j < i THEN f[i][j] ELSE Unit(i, j))},
                  u \in {FMat(n, n, LAMBDA j, i : IF i <= j THEN f[i][j] ELSE FZero)} :
               \A i \in Rng(n), j \in Rng(n) :
                   IF <<i, j>> \in S THEN Near(FDot(l[i], u[j], n), FU(FInt(a[i][j])), n) ELSE f[i][j] = FZero
            /\ Step
\* strictly dominant diagonal: the factorization exists
ItDom(a, n) == \A i \in Rng(n) : a[i][i] > FoldFunction(+, 0, [j \in Rng(n) |-> IF j = i THEN 0 ELSE AbsV(a[i][j])])
ItIcholz ==
    /\ IsCall("it_icholz")
    /\ \E o \in {mem[E.x]} : \E n \in {o[3]}, S \in {ItPos(o)} :
       IF o[2] = 2 \/ o[3] # o[4] THEN E.ret < 0 /\ Frame({E.F.b}) /\ Step
       ELSE IF ~ItDiag(S, n) THEN E.ret < 0 /\ Frame({E.F.b}) /\ Step
       ELSE \E a \in {SpRows(o)} :
            IF E.ret # 0 THEN E.ret < 0 /\ Frame({E.x, E.F.b}) /\ ~ItDom(SymOf(a, n, Up), n) /\ Step
            ELSE /\ Frame({E.x, E.F.b}) /\ ItForm(Obs(E.x), o)
                 /\ \E f \in {ItOut} :
                    \E l \in {FMat(n, n, LAMBDA i, j : IF j > i THEN FZero ELSE IF Up THEN f[j][i] ELSE f[i][j])} :
                    \A i \in Rng(n), j \in Rng(n) :
                        IF <<i, j>> \notin S THEN f[i][j] = FZero
                        ELSE IF InTri(Up, i, j)
                        THEN /\ IF i = j THEN f[i][i][1] > 0 ELSE TRUE
                             /\ Near(FDot(l[i], l[j], n), FU(FInt(a[i][j])), n)
                        ELSE f[i][j] = FInt(a[i][j])
                 /\ Step

IterNext == \/ ItSolve("it_cgrad") \/ ItSolve("it_pcgrad") \/ ItSolve("it_cgne") \/ ItSolve("it_cgnr") \/ ItSolve("it_gmres")
            \/ ItSolve("it_pgmres") \/ ItIluz \/ ItIcholz
=============================================================================
