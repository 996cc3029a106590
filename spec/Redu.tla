-------------------------------- MODULE Redu --------------------------------
(* Reductions to condensed form.  A = Q*F*P' where F is Hessenberg (P = Q), *)
(* bidiagonal, or tridiagonal (P = Q) and Q, P are products of elementary   *)
(* reflectors stored beside F:                                              *)
(*   hess  n-1 reflectors, unit below the diagonal, v in columns            *)
(*   trl   the same, lower triangle of a symmetric matrix                   *)
(*   tru   n-1 reflectors, unit above the diagonal, v in columns upwards,   *)
(*         Q = ...H1 H0 in order of columns (as QL), others Q = H0 H1 ...   *)
(*   bdq   m >= n: unit on the diagonal, v in columns; else unit below it   *)
(*   bdp   m >= n: unit right of the diagonal, v in rows; else on it        *)
EXTENDS Qr

Tall(A) == A.r >= A.c
ROrder(kind, A) == IF kind = "bdp" THEN A.c ELSE A.r
RCount(kind, A) == CASE kind = "bdq" -> IF Tall(A) THEN A.c ELSE A.r - 1
                     [] kind = "bdp" -> IF Tall(A) THEN A.c - 1 ELSE A.r
                     [] OTHER -> IF A.r > 0 THEN A.r - 1 ELSE 0
RPiv(kind, A, k) == CASE kind = "bdq" -> IF Tall(A) THEN k ELSE k + 1
                      [] kind = "bdp" -> IF Tall(A) THEN k + 1 ELSE k
                      [] kind = "tru" -> k
                      [] OTHER -> k + 1
RVecs(kind, a0, A) == Bind(a0, LAMBDA a :
    TLCEval([k \in Rng(RCount(kind, A)) |-> Bind(RPiv(kind, A, k), LAMBDA p :
       TLCEval([i \in Rng(ROrder(kind, A)) |->
          IF i = p THEN FOne
          ELSE IF (kind = "tru") = (i > p) THEN FZero
          ELSE IF kind = "bdp" THEN a[k][i] ELSE IF kind = "tru" THEN a[i][k + 1] ELSE a[i][k]]))]))
RSeq(kind, trans, lo, hi) == IF (kind = "tru") # trans THEN AscSeq(lo, hi) ELSE DescSeq(lo, hi)

\* column j of the condensed form
RForm(kind, a, A, j) == [i \in Rng(A.r) |->
    CASE kind = "hess" -> IF i <= j + 1 THEN a[i][j] ELSE FZero
      [] kind = "bdq" -> IF i = j \/ i = (IF Tall(A) THEN j - 1 ELSE j + 1) THEN a[i][j] ELSE FZero
      [] OTHER -> IF i = j THEN a[i][j]
                  ELSE IF i # j + 1 /\ i # j - 1 THEN FZero
                  ELSE IF (kind = "trl") = (i > j) THEN a[i][j] ELSE a[j][i]]
\* the matrix given: full, or a triangle of a symmetric matrix
RGiven(kind, a, A) == IF kind \in {"trl", "tru"} THEN FSym(a, A.r, kind = "tru") ELSE a
ROwn(kind, i, j) == IF kind \in {"trl", "tru"} THEN InTri(kind = "tru", i, j) ELSE TRUE

\* A*P = Q*F column by column
REquiv(qk, pk, g, a, A, qv, qt, pv, pt) ==
    \A j \in Rng(A.c) :
      \E y \in {ReflectSeq(pv, pt, RSeq(pk, FALSE, 0, RCount(pk, A) - 1), EVec(A.c, j), A.c)} :
      \E z \in {ReflectSeq(qv, qt, RSeq(qk, FALSE, 0, RCount(qk, A) - 1), RForm(qk, a, A, j), A.r)} :
        \A i \in Rng(A.r) : Near(FDot(g[i], y, A.c), FU(z[i]), 4 * (A.r + A.c))

RSimil(op, kind, cond) ==
    /\ IsCall(op) /\ cond
    /\ LET A == E.A  T == E.T  k == RCount(kind, A)
       IN  IF A.r # A.c \/ NotVec(T) \/ VLen(T) # (IF kind = "hess" THEN k ELSE A.c) THEN Refused
           ELSE
           \E g \in {RGiven(kind, Rows(mem[A.b], A), A)} : \E a \in {Rows(Obs(A.b), A)} :
           \E t \in {Vec(Obs(T.b), T)} : \E vs \in {RVecs(kind, a, A)} :
           /\ Good /\ Frame({A.b, T.b}) /\ Untouched(A, LAMBDA i, j : ROwn(kind, i, j)) /\ VecFrame(T)
           /\ QIsOrth(vs, t, 0, k - 1, A.r)
           /\ REquiv(kind, kind, g, a, A, vs, t, vs, t)
           /\ Step

BdReduce(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  T == E.T  S == E.S
       IN  \E g \in {Rows(mem[A.b], A)} : \E a \in {Rows(Obs(A.b), A)} :
           \E qt \in {Vec(Obs(T.b), T)} : \E qv \in {RVecs("bdq", a, A)} :
           \E pt \in {Vec(Obs(S.b), S)} : \E pv \in {RVecs("bdp", a, A)} :
           /\ Good /\ Frame({A.b, T.b, S.b}) /\ Untouched(A, All) /\ VecFrame(T) /\ VecFrame(S)
           /\ QIsOrth(qv, qt, 0, RCount("bdq", A) - 1, A.r)
           /\ QIsOrth(pv, pt, 0, RCount("bdp", A) - 1, A.c)
           /\ REquiv("bdq", "bdp", g, a, A, qv, qt, pv, pt)
           /\ Step

\* C := op(Q)*C or C*op(Q)
RMult(op, kind, cond, tlen) ==
    /\ IsCall(op) /\ cond
    /\ LET A == E.A  T == E.T  C == E.C  n == ROrder(kind, A)  k == RCount(kind, A)
           right == Has("RIGHT")  trans == Has("TRANSA")
       IN  IF (IF right THEN C.c ELSE C.r) # n \/ VLen(T) # tlen THEN Refused
           ELSE
           \E c0 \in {IF right THEN Rows(mem[C.b], C) ELSE Cols(mem[C.b], C)} :
           \E c1 \in {IF right THEN Rows(Obs(C.b), C) ELSE Cols(Obs(C.b), C)} :
           \E t \in {Vec(mem[T.b], T)} : \E vs \in {RVecs(kind, Rows(mem[A.b], A), A)} :
           /\ Good /\ Frame({C.b}) /\ Untouched(C, All)
           /\ \A j \in DOMAIN c0 :
                \E y \in {ReflectSeq(vs, t, RSeq(kind, trans # right, 0, k - 1), c0[j], n)} : NearVec(y, c1[j], n)
           /\ Step

\* The product of the first E.K reflectors (tru: last E.K), or of all of them if there are fewer:
\* columns of Q, rows of P'.  A larger than the product keeps the rest.
RBuild(op, kind, cond) ==
    /\ IsCall(op) /\ cond
    /\ LET A == E.A  T == E.T  n == ROrder(kind, A)  cnt == RCount(kind, A)
           k == Min2(E.K, cnt)
           lo == IF kind = "tru" THEN cnt - k ELSE 0   hi == IF kind = "tru" THEN cnt - 1 ELSE k - 1
           w == Min2(n, IF kind = "bdp" THEN A.r ELSE A.c)
       IN  \E t \in {Vec(mem[T.b], T)} : \E vs \in {RVecs(kind, Rows(mem[A.b], A), A)} :
           \E q \in {IF kind = "bdp" THEN Rows(Obs(A.b), A) ELSE Cols(Obs(A.b), A)} :
           /\ Good /\ Frame({A.b}) /\ Untouched(A, LAMBDA i, j : (IF kind = "bdp" THEN i ELSE j) < w)
           /\ \A j \in Rng(w) :
                \E y \in {ReflectSeq(vs, t, RSeq(kind, FALSE, lo, hi), EVec(n, j), n)} : NearVec(y, q[j], n)
           /\ Step

Suf(op, sf) == op \o sf
ReduNext == \E sf \in {"", "_w"} :
    \/ RSimil(Suf("hessreduce", sf), "hess", TRUE)
    \/ RSimil(Suf("trdreduce", sf), "tru", Up) \/ RSimil(Suf("trdreduce", sf), "trl", ~Up)
    \/ BdReduce(Suf("bdreduce", sf))
    \/ RMult(Suf("hessmult", sf), "hess", TRUE, RCount("hess", E.A))
    \/ RMult(Suf("trdmult", sf), "tru", Up, E.A.c) \/ RMult(Suf("trdmult", sf), "trl", ~Up, E.A.c)
    \/ RMult(Suf("bdmult", sf), "bdq", Has("MULTQ"), Min2(E.A.r, E.A.c))
    \/ RMult(Suf("bdmult", sf), "bdp", Has("MULTP"), Min2(E.A.r, E.A.c))
    \/ RBuild(Suf("trdbuild", sf), "tru", Up) \/ RBuild(Suf("trdbuild", sf), "trl", ~Up)
    \/ RBuild(Suf("bdbuild", sf), "bdq", Has("WANTQ")) \/ RBuild(Suf("bdbuild", sf), "bdp", Has("WANTP"))
=============================================================================
