-------------------------------- MODULE Ldl --------------------------------
(* LDL' (UDU') factorization with optional symmetric pivoting, the pivoted   *)
(* Bunch-Kaufman factorization with 1x1 and 2x2 diagonal blocks, and solves  *)
(* and inverses from them.  The upper variants run from the bottom right:    *)
(* they are the lower ones seen through the reversal i -> n-1-i.             *)
EXTENDS Chol

Rev(n, up, i) == IF up THEN n - 1 - i ELSE i
\* stored triangle as a lower triangle (reversed for upper)
LowRows(a0, n, up) == Bind(a0, LAMBDA a : FMat(n, n, LAMBDA i, j : IF j > i THEN FZero ELSE a[Rev(n, up, i)][Rev(n, up, j)]))
\* pivots of the reversed problem, 1-based, sign kept
RevPiv(q0, n, up) == Bind(q0, LAMBDA q :
    [i \in 1..n |-> IF ~up THEN q[i]
                    ELSE IF q[n + 1 - i] < 0 THEN -(n + 1 + q[n + 1 - i])
                    ELSE n + 1 - q[n + 1 - i]])
UnitLow(i, j, x) == IF i = j THEN FOne ELSE x
\* columns of x*D as numbers
FNum(u) == UF(u)
PosFrame(P, n) == \A i \in 1..Len(Obs(P.b)) :
                     IF i > P.o /\ i <= P.o + n THEN TRUE ELSE Obs(P.b)[i] = mem[P.b][i]

\* L*D*L' (plain diagonal) as rows of numbers
LdlProd(s0, n) == Bind(s0, LAMBDA s :
    Bind(FMat(n, n, LAMBDA i, j : UnitLow(i, j, s[i][j])), LAMBDA l :
    Bind(FMat(n, n, LAMBDA i, j : IF j > i THEN FZero ELSE IF i = j THEN s[j][j] ELSE UF(FMul(s[i][j], s[j][j]))), LAMBDA ld :
      FMat(n, n, LAMBDA i, j : UF(FDot(ld[i], l[j], Min2(i, j) + 1))))))

\* source index of the (reversed) problem under its pivots
LdlSrc(q0, n, up) == Bind(RevPiv(q0, n, up), LAMBDA q : PivSrc(q, n, FALSE))

LdlFactor(op) ==
    /\ IsCall(op)
    /\ IF E.A.r # E.A.c THEN Refused
       ELSE LET A == E.A  n == A.r  up == Upper  piv == HasKey("P")
            IN  \E a0 \in {FSym(Rows(mem[A.b], A), n, up)} :
                \E m0 \in {LdlProd(LowRows(Rows(Obs(A.b), A), n, up), n)} :
                \E q \in {IF piv THEN PivOf(Obs(E.P.b), E.P) ELSE [i \in 1..n |-> i]} :
                /\ Good
                /\ Frame(IF piv THEN {A.b, E.P.b} ELSE {A.b})
                /\ IF piv THEN PosFrame(E.P, n) ELSE TRUE
                /\ Untouched(A, LAMBDA i, j : InTri(up, i, j))
                /\ \A i \in 1..n : IF up THEN q[i] \in 1..i ELSE q[i] \in i..n
                /\ \E src \in {LdlSrc(q, n, up)} :
                     \A i \in Rng(n) : \A j \in 0..i :
                        Near(FU(m0[i][j]), FU(a0[Rev(n, up, src[i])][Rev(n, up, src[j])]), 2 * n)
                /\ Step

\* M x = b in the reversed and permuted order: shared by all the solves
SolveRel(m0, src, n, up, x, b, nc) ==
    \E xs \in {[c \in Rng(nc) |-> [i \in Rng(n) |-> x[c][Rev(n, up, src[i])]]]} :
      \A i \in Rng(n) : \A c \in Rng(nc) :
         Near(FDot(m0[i], xs[c], n), FU(b[Rev(n, up, src[i])][c]), 4 * n)

LdlSolveF(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  B == E.B  n == A.r  up == Upper  piv == HasKey("P")
       IN  IF A.r # A.c \/ B.r # A.c THEN Refused
           ELSE
           \E x \in {Cols(Obs(B.b), B)} : \E b \in {Rows(mem[B.b], B)} :
           \E q \in {IF piv THEN PivOf(mem[E.P.b], E.P) ELSE [i \in 1..n |-> i]} :
           /\ Good /\ Frame({B.b}) /\ Untouched(B, All)
           /\ \E m0 \in {LdlProd(LowRows(Rows(mem[A.b], A), n, up), n)} : \E src \in {LdlSrc(q, n, up)} :
                SolveRel(m0, src, n, up, x, b, B.c)
           /\ Step
\* exact on integers whose quotients by the diagonal are exact
LdlSolve(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  B == E.B  n == A.r  up == Upper  piv == HasKey("P")
       IN  IF A.r # A.c \/ B.r # A.c THEN Refused
           ELSE
           \E a \in {Rows(mem[A.b], A)} : \E x \in {Rows(Obs(B.b), B)} : \E b \in {Rows(mem[B.b], B)} :
           \E q \in {IF piv THEN PivOf(mem[E.P.b], E.P) ELSE [i \in 1..n |-> i]} :
           \E l \in {MkRows(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE IF j > i THEN 0 ELSE a[Rev(n, up, i)][Rev(n, up, j)])} :
           \E m0 \in {MkRows(n, n, LAMBDA i, j :
                  SumF([k \in 0..Min2(i, j) |-> l[i][k] * a[Rev(n, up, k)][Rev(n, up, k)] * l[j][k]]))} :
           \E src \in {LdlSrc(q, n, up)} :
           /\ Good /\ Frame({B.b}) /\ Untouched(B, All)
           /\ \A i \in Rng(n) : \A c \in Rng(B.c) :
                SumF([k \in Rng(n) |-> m0[i][k] * x[Rev(n, up, src[k])][c]]) = b[Rev(n, up, src[i])][c]
           /\ Step

LdlInverse(op) ==
    /\ IsCall(op)
    /\ IF E.A.r # E.A.c \/ (IF HasKey("P") THEN E.P.n # E.A.r ELSE FALSE) THEN Refused
       ELSE LET A == E.A  n == A.r  up == Upper  piv == HasKey("P")
            IN  \E y \in {FSym(Rows(Obs(A.b), A), n, up)} :
                \E q \in {IF piv THEN PivOf(mem[E.P.b], E.P) ELSE [i \in 1..n |-> i]} :
                \E m0 \in {LdlProd(LowRows(Rows(mem[A.b], A), n, up), n)} : \E src \in {LdlSrc(q, n, up)} :
                \E ys \in {FMat(n, n, LAMBDA j, i : y[Rev(n, up, src[j])][Rev(n, up, src[i])])} :
                /\ Good /\ Frame({A.b}) /\ Untouched(A, LAMBDA i, j : InTri(up, i, j))
                /\ \A i \in Rng(n) : \A j \in Rng(n) : Near(FDot(m0[i], ys[j], n), UnitU(i, j), 4 * n)
                /\ Step

(* ---- Bunch-Kaufman ---- *)
\* pivots q of the (reversed) problem: q[k] > 0 a 1x1 block exchanged with q[k];
\* q[k] = q[k+1] < 0 a 2x2 block whose second line was exchanged with -q[k]
RECURSIVE BkBlocks(_, _, _)
BkBlocks(q, n, k) ==        \* sequence of <<first, size, target>>, 0-based
    IF k >= n THEN <<>>
    ELSE IF q[k + 1] > 0 THEN <<<<k, 1, q[k + 1] - 1>>>> \o BkBlocks(q, n, k + 1)
    ELSE IF k + 1 < n THEN <<<<k, 2, -q[k + 1] - 1>>>> \o BkBlocks(q, n, k + 2)
    ELSE <<<<k, 3, 0>>>>    \* malformed
BkOk(q, n) == \A b \in Range(BkBlocks(q, n, 0)) :
                 /\ b[2] \in {1, 2}
                 /\ IF b[2] = 2 THEN q[b[1] + 1] = q[b[1] + 2] ELSE TRUE
                 /\ b[3] \in (b[1] + b[2] - 1)..(n - 1)
BkSwaps(bs) == [t \in 1..Len(bs) |-> <<bs[t][1] + bs[t][2] - 1, bs[t][3]>>]

\* the factored matrix, in permuted order, from the stored triangle s
BkProd(s0, bs0, n) == Bind(s0, LAMBDA s : Bind(bs0, LAMBDA bs :
    \* block of a column, and whether it is the first of a pair
    Bind([k \in Rng(n) |-> CHOOSE t \in 1..Len(bs) : bs[t][1] <= k /\ k < bs[t][1] + bs[t][2]], LAMBDA blk :
    \* exchanges done after each block, which its columns have not seen
    Bind([t \in 1..Len(bs) |-> SrcOf(n, BkSwaps(SubSeq(bs, t + 1, Len(bs))))], LAMBDA late :
    Bind(FMat(n, n, LAMBDA i, k :
           IF i = k THEN FOne
           ELSE IF i < k \/ blk[i] = blk[k] THEN FZero
           ELSE s[late[blk[k]][i]][k]), LAMBDA l :
    Bind([k \in Rng(n) |-> [j \in Rng(n) |->          \* D
            IF j = k THEN s[k][k] ELSE IF blk[j] # blk[k] THEN FZero
            ELSE IF j > k THEN s[j][k] ELSE s[k][j]]], LAMBDA d :
    Bind(FMat(n, n, LAMBDA i, k :                       \* L*D
           Bind(bs[blk[k]], LAMBDA b :
             IF b[2] = 1 THEN UF(FMul(l[i][k], d[k][k]))
             ELSE UF(FMul(l[i][b[1]], d[b[1]][k]) + FMul(l[i][b[1] + 1], d[b[1] + 1][k])))), LAMBDA ld :
      FMat(n, n, LAMBDA i, j : UF(FDot(ld[i], l[j], n))))))))))

BkFactor(op) ==
    /\ IsCall(op)
    /\ IF E.A.r # E.A.c \/ E.P.n # E.A.r THEN Refused
       ELSE LET A == E.A  n == A.r  up == Upper
            IN  \E a0 \in {FSym(Rows(mem[A.b], A), n, up)} :
                \E q \in {RevPiv(PivOf(Obs(E.P.b), E.P), n, up)} :
                /\ Good
                /\ Frame({A.b, E.P.b}) /\ PosFrame(E.P, n)
                /\ Untouched(A, LAMBDA i, j : InTri(up, i, j))
                /\ BkOk(q, n)
                /\ \E bs \in {BkBlocks(q, n, 0)} :
                   \E m0 \in {BkProd(LowRows(Rows(Obs(A.b), A), n, up), bs, n)} :
                   \E src \in {SrcOf(n, BkSwaps(bs))} :
                     \A i \in Rng(n) : \A j \in 0..i :
                        Near(FU(m0[i][j]), FU(a0[Rev(n, up, src[i])][Rev(n, up, src[j])]), 4 * n)
                /\ Step
BkSolve(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  B == E.B  n == A.r  up == Upper
       IN  IF B.r # A.c THEN Refused
           ELSE
           \E x \in {Cols(Obs(B.b), B)} : \E b \in {Rows(mem[B.b], B)} :
           \E bs \in {BkBlocks(RevPiv(PivOf(mem[E.P.b], E.P), n, up), n, 0)} :
           /\ Good /\ Frame({B.b}) /\ Untouched(B, All)
           /\ \E m0 \in {BkProd(LowRows(Rows(mem[A.b], A), n, up), bs, n)} :
              \E src \in {SrcOf(n, BkSwaps(bs))} :
                SolveRel(m0, src, n, up, x, b, B.c)
           /\ Step

LdlNext == \/ LdlFactor("ldlfactor") \/ LdlFactor("ldlfactor_w") \/ LdlSolveF("ldlsolve_f") \/ LdlSolve("ldlsolve")
           \/ LdlInverse("ldlinverse") \/ LdlInverse("ldlinverse_w")
           \/ BkFactor("bkfactor") \/ BkFactor("bkfactor_w") \/ BkSolve("bksolve") \/ BkSolve("bksolve_w")
=============================================================================
