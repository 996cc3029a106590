--------------------------------- MODULE Qr ---------------------------------
(* Orthogonal factorizations.  An orthogonal matrix is a sequence of         *)
(* elementary reflectors I - t*v*v' held in a matrix and a vector of scalars:*)
(*   QR  Q = H0 H1 ...     v in columns, below the diagonal                  *)
(*   QL  Q = ... H1 H0     v in columns, above the (lower right) diagonal    *)
(*   LQ  Q = ... H1 H0     v in rows, right of the diagonal                  *)
(*   RQ  Q = H0 H1 ...     v in rows, left of the (lower right) diagonal     *)
EXTENDS Ldl

ByCol(kind) == kind \in {"qr", "ql"}
QOrder(kind, A) == IF ByCol(kind) THEN A.r ELSE A.c
QCount(kind, A) == IF ByCol(kind) THEN A.c ELSE A.r
\* where the unit element of reflector k is
QPiv(kind, A, k) == CASE kind \in {"qr", "lq"} -> k
                      [] kind = "ql" -> A.r - A.c + k
                      [] OTHER -> A.c - A.r + k
\* the reflectors as vectors; a is the matrix as rows
QVecs(kind, a0, A) == Bind(a0, LAMBDA a :
    TLCEval([k \in Rng(QCount(kind, A)) |-> Bind(QPiv(kind, A, k), LAMBDA p :
       TLCEval([i \in Rng(QOrder(kind, A)) |->
          IF i = p THEN FOne
          ELSE IF (kind \in {"qr", "lq"}) = (i < p) THEN FZero
          ELSE IF ByCol(kind) THEN a[i][k] ELSE a[k][i]]))]))

AscSeq(lo, hi) == [i \in 1..(hi - lo + 1) |-> lo + i - 1]
DescSeq(lo, hi) == [i \in 1..(hi - lo + 1) |-> hi - i + 1]
\* the order in which reflectors act on a column in Q*x (or Q'*x)
QSeq(kind, trans, lo, hi) == IF (kind \in {"qr", "rq"}) = trans THEN AscSeq(lo, hi) ELSE DescSeq(lo, hi)

Reflect(v, t, x0, n) == Bind(x0, LAMBDA x :
    Bind(UF(FMul(t, UF(FDot(v, x, n)))), LAMBDA w : TLCEval([i \in Rng(n) |-> UF(FU(x[i]) - FMul(v[i], w))])))
RECURSIVE ReflectSeq(_, _, _, _, _)
ReflectSeq(vs, t, s, x, n) ==
    IF s = <<>> THEN x
    ELSE Bind(Reflect(vs[Head(s)], t[Head(s)], x, n), LAMBDA y : ReflectSeq(vs, t, Tail(s), y, n))
\* every reflector is one: t = 0 or t*(v'v) = 2
QIsOrth(vs, t, lo, hi, n) == \A k \in lo..hi :
    IF t[k] = FZero THEN TRUE ELSE Near(FMul(t[k], UF(FDot(vs[k], vs[k], n))), 2 * 4194304, 2 * n)

ZeroVec(n) == [i \in Rng(n) |-> FZero]
EVec(n, j) == [i \in Rng(n) |-> IF i = j THEN FOne ELSE FZero]
NearVec(x, y, n) == \A i \in Rng(n) : Near(FU(x[i]), FU(y[i]), 4 * n)
VecFrame(X) == \E old \in {mem[X.b]}, new \in {Obs(X.b)} : \E own \in {{VPos(X, i) : i \in Rng(VLen(X))}} :
                  \A p \in 1..Len(old) : IF p \in own THEN TRUE ELSE new[p] = old[p]

\* lines of the triangular factor: column j of R/L (by columns) or row j of L/R (by rows)
QTri(kind, a, A, j) == [i \in Rng(QOrder(kind, A)) |->
    LET x == IF ByCol(kind) THEN a[i][j] ELSE a[j][i]
    IN  IF kind \in {"qr", "lq"} THEN (IF i <= j THEN x ELSE FZero)
        ELSE (IF i >= QPiv(kind, A, j) THEN x ELSE FZero)]
QLine(kind, a, A, j) == [i \in Rng(QOrder(kind, A)) |-> IF ByCol(kind) THEN a[i][j] ELSE a[j][i]]

QShapeOk(kind, A) == QOrder(kind, A) >= QCount(kind, A)
QFactor(op, kind) ==
    /\ IsCall(op)
    /\ LET A == E.A  T == E.T  n == QOrder(kind, A)  k == QCount(kind, A)
       IN  IF ~QShapeOk(kind, A) \/ NotVec(T) \/ VLen(T) < k THEN Refused
           ELSE
           \E a0 \in {Rows(mem[A.b], A)} : \E a \in {Rows(Obs(A.b), A)} : \E t \in {Vec(Obs(T.b), T)} :
           \E vs \in {QVecs(kind, a, A)} :
           /\ Good /\ Frame({A.b, T.b}) /\ Untouched(A, All) /\ VecFrame(T)
           /\ QIsOrth(vs, t, 0, k - 1, n)
           /\ \A j \in Rng(k) :
                \E y \in {ReflectSeq(vs, t, QSeq(kind, ByCol(kind), 0, k - 1), QLine(kind, a0, A, j), n)} :
                   NearVec(y, QTri(kind, a, A, j), n)
           /\ Step

\* C := op(Q)*C or C*op(Q)
QMult(op, kind) ==
    /\ IsCall(op)
    /\ LET A == E.A  T == E.T  C == E.C  n == QOrder(kind, A)  k == QCount(kind, A)
           right == Has("RIGHT")  trans == Has("TRANSA")
       IN  IF (IF right THEN C.c ELSE C.r) # n \/ VLen(T) # k THEN Refused
           ELSE
           \E c0 \in {IF right THEN Rows(mem[C.b], C) ELSE Cols(mem[C.b], C)} :
           \E c1 \in {IF right THEN Rows(Obs(C.b), C) ELSE Cols(Obs(C.b), C)} :
           \E t \in {Vec(mem[T.b], T)} : \E vs \in {QVecs(kind, Rows(mem[A.b], A), A)} :
           /\ Good /\ Frame({C.b}) /\ Untouched(C, All)
           /\ \A j \in DOMAIN c0 :
                \* a row of C*Q is Q'*(the row)
                \E y \in {ReflectSeq(vs, t, QSeq(kind, trans # right, 0, k - 1), c0[j], n)} : NearVec(y, c1[j], n)
           /\ Step

\* the first (qr, lq) or last (ql, rq) columns or rows of the product of E.K reflectors
QBuild(op, kind) ==
    /\ IsCall(op)
    /\ LET A == E.A  T == E.T  n == QOrder(kind, A)  k == QCount(kind, A)
           first == kind \in {"qr", "lq"}
           lo == IF first THEN 0 ELSE k - E.K   hi == IF first THEN E.K - 1 ELSE k - 1
       IN  \E t \in {Vec(mem[T.b], T)} : \E vs \in {QVecs(kind, Rows(mem[A.b], A), A)} :
           \E q \in {IF ByCol(kind) THEN Cols(Obs(A.b), A) ELSE Rows(Obs(A.b), A)} :
           /\ Good /\ Frame({A.b}) /\ Untouched(A, All)
           /\ \A j \in Rng(k) :
                \E y \in {ReflectSeq(vs, t, QSeq(kind, ~ByCol(kind), lo, hi),
                                     EVec(n, IF first THEN j ELSE n - k + j), n)} : NearVec(y, q[j], n)
           /\ Step

\* least squares and minimum norm solutions
QSolve(op, kind) ==
    /\ IsCall(op)
    /\ LET A == E.A  T == E.T  B == E.B  n == QOrder(kind, A)  k == QCount(kind, A)
           minnorm == (kind = "qr") = Has("TRANSA")
           byrow == (kind = "qr") # Has("TRANSA")
       IN  IF B.r # n THEN Refused
           ELSE
           \E b \in {Cols(mem[B.b], B)} : \E x \in {Cols(Obs(B.b), B)} :
           \E a \in {Rows(mem[A.b], A)} : \E t \in {Vec(mem[T.b], T)} : \E vs \in {QVecs(kind, a, A)} :
           \* the triangle of the system: F[i][j] by rows
           \E f \in {FMat(k, k, LAMBDA i, j :
                 LET el == IF (kind = "qr") = (~Has("TRANSA")) THEN IF kind = "qr" THEN a[i][j] ELSE a[j][i]
                          ELSE IF kind = "qr" THEN a[j][i] ELSE a[i][j]
                 IN  IF (IF minnorm THEN j > i ELSE j < i) THEN FZero ELSE el)} :
           /\ Good /\ Frame({B.b}) /\ Untouched(B, All)
           /\ \A c \in Rng(B.c) :
                IF minnorm
                THEN \* Q-image of x is (y;0) with F*y = b
                     \E y \in {ReflectSeq(vs, t, QSeq(kind, kind = "qr", 0, k - 1), x[c], n)} :
                       /\ \A i \in Rng(k) : Near(FDot(f[i], y, k), FU(b[c][i]), 4 * n)
                       /\ \A i \in k..(n - 1) : Near(FU(y[i]), 0, 4 * n)
                ELSE \* F*x = top of the Q-image of b, the rest is kept below
                     \E y \in {ReflectSeq(vs, t, QSeq(kind, kind = "qr", 0, k - 1), b[c], n)} :
                       /\ \A i \in Rng(k) : Near(FDot(f[i], x[c], k), FU(y[i]), 4 * n)
                       /\ \A i \in k..(n - 1) : Near(FU(x[c][i]), FU(y[i]), 4 * n)
           /\ Step

\* Block reflector: H0 H1 ... = I - V*T*V' with T upper triangular (qr, lq);
\* ... H1 H0 = I - V*T*V' with T lower triangular (ql, rq).
\* tm: rows of T (k x k), vs restricted to reflectors lo..lo+k-1
BlockRefl(vs, t, tm, lo, k, upper, n) ==
    \A j \in Rng(n) :
      \E y \in {ReflectSeq(vs, t, IF upper THEN DescSeq(lo, lo + k - 1) ELSE AscSeq(lo, lo + k - 1), EVec(n, j), n)} :
      \E w \in {[i \in Rng(k) |-> UF(FoldFunction(+, 0, [p \in Rng(k) |->
                   IF (IF upper THEN p >= i ELSE p <= i) THEN FMul(tm[i][p], vs[lo + p][j]) ELSE 0]))]} :
        \A i \in Rng(n) :
           Near(FU(y[i]), UnitU(i, j) - FoldFunction(+, 0, [p \in Rng(k) |-> FMul(vs[lo + p][i], w[p])]), 4 * n)
QRefl(op, kind) ==
    /\ IsCall(op)
    /\ LET A == E.A  T == E.T  X == E.X  n == QOrder(kind, A)  k == QCount(kind, A)  up == kind \in {"qr", "lq"}
       IN  IF X.r < k \/ X.c < k THEN Refused
           ELSE
           \E t \in {Vec(mem[T.b], T)} : \E vs \in {QVecs(kind, Rows(mem[A.b], A), A)} :
           \E tm \in {Rows(Obs(X.b), X)} :
           /\ Good /\ Frame({X.b}) /\ Untouched(X, LAMBDA i, j : i < k /\ j < k /\ (IF up THEN i <= j ELSE i >= j))
           /\ BlockRefl(vs, t, tm, 0, k, up, n)
           /\ Step
\* QR with block reflectors in X: block b of E.X.r columns has its reflector in the same columns of X;
\* the scalar factors are on its diagonal
QrtFactor(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  X == E.X  n == A.r  k == A.c  lb == X.r
       IN  IF n < k \/ X.c < k THEN Refused
           ELSE
           \E a0 \in {Rows(mem[A.b], A)} : \E a \in {Rows(Obs(A.b), A)} : \E x \in {Rows(Obs(X.b), X)} :
           \E t \in {[j \in Rng(k) |-> x[j % lb][j]]} :
           \E vs \in {QVecs("qr", a, A)} :
           /\ Good /\ Frame({A.b, X.b}) /\ Untouched(A, All)
           /\ Untouched(X, LAMBDA i, j : j < k /\ i <= j % lb)
           /\ QIsOrth(vs, t, 0, k - 1, n)
           /\ \A j \in Rng(k) :
                \E y \in {ReflectSeq(vs, t, AscSeq(0, k - 1), QLine("qr", a0, A, j), n)} :
                   NearVec(y, QTri("qr", a, A, j), n)
           /\ \A bl \in 0..((k - 1) \div lb) :
                BlockRefl(vs, t, [i \in Rng(Min2(lb, k - bl * lb)) |-> [p \in Rng(Min2(lb, k - bl * lb)) |-> x[i][bl * lb + p]]],
                          bl * lb, Min2(lb, k - bl * lb), TRUE, n)
           /\ Step

QrNext == \/ \E kind \in {"qr", "ql", "lq", "rq"} :
               \/ QFactor(kind \o "factor", kind) \/ QFactor(kind \o "factor_w", kind)
               \/ QMult(kind \o "mult", kind) \/ QMult(kind \o "mult_w", kind)
               \/ QBuild(kind \o "build", kind) \/ QBuild(kind \o "build_w", kind)
               \/ QSolve(kind \o "solve", kind) \/ QSolve(kind \o "solve_w", kind)
               \/ QRefl(kind \o "reflector", kind)
          \/ QrtFactor("qrtfactor") \/ QrtFactor("qrtfactor_w")
=============================================================================
