-------------------------------- MODULE Blas2 --------------------------------
(* Matrix-vector operations.                                                 *)
EXTENDS Blas3

ColsOf(v, tr, ab) == OpRows(v, ~tr, ab)
XVec(v, ab) == Bind(Vec(mem[v.b], v), LAMBDA x : IF ab THEN [i \in DOMAIN x |-> AbsV(x[i])] ELSE x)
\* arguments that are not vectors / sizes that do not agree are refused
NotVec(v) == ~IsVec(v)

MVMult(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  X == E.X  Y == E.Y
       IN  IF Size(A) = 0 \/ Size(X) = 0 \/ Size(Y) = 0 THEN Noop
           ELSE IF NotVec(X) \/ NotVec(Y) \/ VLen(X) # OpC(A, TrA) \/ VLen(Y) # OpR(A, TrA) THEN Refused
           ELSE \E ar \in {OpRows(A, TrA, Has("ABSA"))} : \E x \in {XVec(X, Has("ABSA"))} :
                \E y0 \in {Vec(mem[Y.b], Y)} :
                    /\ Good /\ Frame({Y.b})
                    /\ UpdatedV(Y, LAMBDA i : Scaled(E.be, y0[i]) + E.al * Dot(ar[i], x, VLen(X)))
                    /\ Step

MVMultSym(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  X == E.X  Y == E.Y  n == A.r
       IN  IF Size(A) = 0 \/ Size(X) = 0 \/ Size(Y) = 0 THEN Noop
           ELSE IF NotVec(X) \/ NotVec(Y) \/ A.r # A.c \/ VLen(X) # n \/ VLen(Y) # n THEN Refused
           ELSE \E s \in {SymOf(Rows(mem[A.b], A), n, Up)} : \E x \in {XVec(X, FALSE)} :
                \E y0 \in {Vec(mem[Y.b], Y)} :
                    /\ Good /\ Frame({Y.b})
                    /\ UpdatedV(Y, LAMBDA i : Scaled(E.be, y0[i]) + E.al * Dot(s[i], x, n))
                    /\ Step

MVMultTrm(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  X == E.X  n == A.r
       IN  IF Size(A) = 0 \/ Size(X) = 0 THEN Noop
           ELSE IF NotVec(X) \/ A.r # A.c \/ VLen(X) # n THEN Refused
           ELSE \E t \in {TriOp(A)} : \E x \in {XVec(X, FALSE)} :
                    /\ Good /\ Frame({X.b})
                    /\ UpdatedV(X, LAMBDA i : E.al * Dot(t[i], x, n))
                    /\ Step

MVSolveTrm(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  X == E.X  n == A.r
       IN  IF Size(A) = 0 \/ Size(X) = 0 THEN Noop
           ELSE IF NotVec(X) \/ A.r # A.c \/ VLen(X) # n THEN Refused
           ELSE \E t \in {TriOp(A)} : \E b \in {XVec(X, FALSE)} : \E x \in {Vec(Obs(X.b), X)} :
                    /\ Good /\ Frame({X.b})
                    /\ \A i \in Rng(n) : AbsV(x[i]) <= 100000
                    /\ UpdatedV(X, LAMBDA i : x[i])
                    /\ \A i \in Rng(n) : Dot(t[i], x, n) = E.al * b[i]
                    /\ Step

\* A := be*A + al*(rank one or two) on the elements in(i,j)
RankUpd(op, in(_, _), val(_, _, _, _)) ==
    LET A == E.A  X == E.X  Y == IF HasKey("Y") THEN E.Y ELSE E.X
    IN  \E x \in {XVec(X, FALSE)} : \E y \in {XVec(Y, FALSE)} : \E a0 \in {Rows(mem[A.b], A)} :
            /\ Good /\ Frame({A.b})
            /\ Updated(A, in, LAMBDA i, j : Scaled(E.be, a0[i][j]) + E.al * val(x, y, i, j))
            /\ Step
XY(x, y, i, j) == x[i] * y[j]
XYYX(x, y, i, j) == x[i] * y[j] + y[i] * x[j]

MVUpdate(op) ==
    /\ IsCall(op)
    /\ IF Size(E.A) = 0 \/ Size(E.X) = 0 \/ Size(E.Y) = 0 THEN Noop
       ELSE IF NotVec(E.X) \/ NotVec(E.Y) \/ VLen(E.X) # E.A.r \/ VLen(E.Y) # E.A.c THEN Refused
       ELSE RankUpd(op, All, XY)
MVUpdateTrm(op) ==
    /\ IsCall(op)
    /\ IF Size(E.A) = 0 \/ Size(E.X) = 0 \/ Size(E.Y) = 0 THEN Noop
       ELSE IF NotVec(E.X) \/ NotVec(E.Y) \/ VLen(E.X) # E.A.r \/ VLen(E.Y) # E.A.c THEN Refused
       ELSE RankUpd(op, LAMBDA i, j : InTri(Up, i, j), XY)
MVUpdateSym(op) ==
    /\ IsCall(op)
    /\ IF Size(E.A) = 0 \/ Size(E.X) = 0 THEN Noop
       ELSE IF NotVec(E.X) \/ VLen(E.X) # E.A.r \/ VLen(E.X) # E.A.c THEN Refused
       ELSE RankUpd(op, LAMBDA i, j : InTri(Up, i, j), XY)
MVUpdate2Sym(op) ==
    /\ IsCall(op)
    /\ IF Size(E.A) = 0 \/ Size(E.X) = 0 \/ Size(E.Y) = 0 THEN Noop
       ELSE IF NotVec(E.X) \/ NotVec(E.Y) \/ E.A.r # E.A.c \/ VLen(E.X) # E.A.r \/ VLen(E.Y) # E.A.r THEN Refused
       ELSE RankUpd(op, LAMBDA i, j : InTri(Up, i, j), XYYX)

Blas2Next == \/ MVMult("mvmult") \/ MVMultSym("mvmult_sym") \/ MVMultTrm("mvmult_trm")
             \/ MVSolveTrm("mvsolve_trm") \/ MVUpdate("mvupdate") \/ MVUpdateTrm("mvupdate_trm")
             \/ MVUpdateSym("mvupdate_sym") \/ MVUpdate2Sym("mvupdate2_sym")
=============================================================================
