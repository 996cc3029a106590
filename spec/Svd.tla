--------------------------------- MODULE Svd ---------------------------------
(* Singular value and symmetric eigenvalue decompositions.                   *)
(* A decomposition is accepted for what it is: orthonormal vectors and values*)
(* in order whose product is the input.  Where only values are returned they *)
(* must be those of some decomposition of the input; the case names storage  *)
(* that holds one (W keys: a witness for the existential quantifier).        *)
EXTENDS Elem

DotTol(n) == 8 * n
OrthoN(a, k, n) == \A i \in Rng(k) : \A j \in 0..i : Near(FDot(a[i], a[j], n), UnitU(i, j), DotTol(n))
Descending(s, n) == \A i \in Rng(n) : /\ FU(s[i]) >= 0
                                      /\ IF i > 0 THEN FU(s[i - 1]) >= FU(s[i]) ELSE TRUE
Ascending(s, n) == \A i \in 1..(n - 1) : FU(s[i - 1]) <= FU(s[i])
FirstN(a, k) == [i \in Rng(k) |-> a[i]]
\* sum of u[p]*s[p]*v[p]' is the matrix of rows g;  u, v: vectors of length m, n
OuterIs(u, s, v0, g, m, n, k) ==
    \E v \in {TLCEval([j \in Rng(n) |-> TLCEval([p \in Rng(k) |-> v0[p][j]])])} :
    \A i \in Rng(m) : \E w \in {TLCEval([p \in Rng(k) |-> UF(FMul(u[p][i], s[p]))])} :
      \A j \in Rng(n) : Near(FDot(w, v[j], k), FU(g[i][j]), DotTol(m + n))
\* the k vectors u are left singular vectors of the matrix of rows g, values s: u'*g has orthogonal rows of length s and
\* nothing of g is outside of the space of u
LeftOf(u, s, g, m, n, k) ==
    \E gc \in {FT(g, m, n)} : \E b \in {FMat(k, n, LAMBDA p, j : UF(FDot(u[p], gc[j], m)))} :
      /\ OrthoN(u, k, m)
      /\ \A p \in Rng(k) : \A q \in 0..p :
            Near(FDot(b[p], b[q], n), IF p = q THEN FMul(s[p], s[p]) ELSE 0, 2 * DotTol(m + n))
      /\ OuterIs(u, [p \in Rng(k) |-> FOne], b, g, m, n, k)
SvdOf(u, s, v, g, m, n, k) == OrthoN(u, k, m) /\ OrthoN(v, k, n) /\ OuterIs(u, s, v, g, m, n, k)

\* u (wu), v (wv) present or not; if none the witness vectors and values decompose g
ValuesOf(s, g, m, n, k, wu, u, wv, v) ==
    IF wu /\ wv THEN SvdOf(u, s, v, g, m, n, k)
    ELSE IF wu THEN LeftOf(u, s, g, m, n, k)
    ELSE IF wv THEN LeftOf(v, s, FT(g, m, n), n, m, k)
    ELSE \E x \in {FirstN(Cols(mem[E.WU.b], E.WU), k)} : \E y \in {Vec(mem[E.WS.b], E.WS)} :
           LeftOf(x, y, g, m, n, k) /\ NearVec(s, y, k)
BufsOf(ks) == {E[k].b : k \in ks \cap DOMAIN E}

SvdOp(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  S == E.S  m == A.r  n == A.c  k == Min2(m, n)
           wu == Has("WANTU")  wv == Has("WANTV")
           ok == /\ VLen(S) = k
                 /\ IF wu THEN HasKey("U") /\ E.U.r = m /\ (E.U.c = m \/ E.U.c = k) ELSE TRUE
                 /\ IF wv THEN HasKey("V") /\ E.V.c = n /\ (E.V.r = n \/ E.V.r = k) ELSE TRUE
       IN  IF ~ok THEN Refused
           ELSE
           \E g \in {Rows(mem[A.b], A)} : \E s \in {Vec(Obs(S.b), S)} :
           \E u \in {IF wu THEN Cols(Obs(E.U.b), E.U) ELSE 0} : \E v \in {IF wv THEN Rows(Obs(E.V.b), E.V) ELSE 0} :
           /\ Good /\ Frame({A.b, S.b} \cup (IF wu THEN {E.U.b} ELSE {}) \cup (IF wv THEN {E.V.b} ELSE {}))
           /\ Untouched(A, All) /\ VecFrame(S)
           /\ IF wu THEN Untouched(E.U, All) /\ OrthoN(u, E.U.c, m) ELSE TRUE
           /\ IF wv THEN Untouched(E.V, All) /\ OrthoN(v, E.V.r, n) ELSE TRUE
           /\ Descending(s, k) /\ ValuesOf(s, g, m, n, k, wu, u, wv, v)
           /\ Step

\* bidiagonal matrix as rows
BiDiag(d, e, n, up) == FMat(n, n, LAMBDA i, j : IF i = j THEN d[i] ELSE IF up /\ j = i + 1 THEN e[i]
                                                ELSE IF ~up /\ i = j + 1 THEN e[j] ELSE FZero)
\* D, U, V: U*diag(D)*V = U0*B*V0
BdSvd(op) ==
    /\ IsCall(op)
    /\ LET X == E.D  Y == E.E  n == VLen(X)  wu == Has("WANTU")  wv == Has("WANTV")  up == ~Has("LOWER")
           ok == /\ VLen(Y) = n - 1
                 /\ IF wu THEN HasKey("U") /\ E.U.c >= n ELSE TRUE
                 /\ IF wv THEN HasKey("V") /\ E.V.r >= n ELSE TRUE
       IN  IF ~ok THEN Refused
           ELSE
           LET m == IF wu THEN E.U.r ELSE n   p == IF wv THEN E.V.c ELSE n
           IN
           \E bd \in {BiDiag(Vec(mem[X.b], X), Vec(mem[Y.b], Y), n, up)} :
           \E u0 \in {IF wu THEN FirstN(Cols(mem[E.U.b], E.U), n) ELSE 0} :
           \E v0 \in {IF wv THEN FirstN(Rows(mem[E.V.b], E.V), n) ELSE 0} :
           \E l \in {IF wu THEN FProd(FT(u0, n, m), FT(bd, n, n), m, n, n) ELSE bd} :
           \E g \in {IF wv THEN FProd(l, FT(v0, n, p), m, p, n) ELSE l} :
           \E s \in {Vec(Obs(X.b), X)} :
           \E u \in {IF wu THEN FirstN(Cols(Obs(E.U.b), E.U), n) ELSE 0} :
           \E v \in {IF wv THEN FirstN(Rows(Obs(E.V.b), E.V), n) ELSE 0} :
           /\ Good /\ Frame({X.b, Y.b} \cup (IF wu THEN {E.U.b} ELSE {}) \cup (IF wv THEN {E.V.b} ELSE {}))
           /\ VecFrame(X) /\ VecFrame(Y)
           /\ IF wu THEN Untouched(E.U, LAMBDA i, j : j < n) ELSE TRUE
           /\ IF wv THEN Untouched(E.V, LAMBDA i, j : i < n) ELSE TRUE
           /\ Descending(s, n) /\ ValuesOf(s, g, m, p, n, wu, u, wv, v)
           /\ Step
Dqds(op) ==
    /\ IsCall(op)
    /\ LET X == E.D  Y == E.E  n == VLen(X)
       IN  IF VLen(Y) # n - 1 THEN Refused
           ELSE
           \E bd \in {BiDiag(Vec(mem[X.b], X), Vec(mem[Y.b], Y), n, TRUE)} : \E s \in {Vec(Obs(X.b), X)} :
           /\ Good /\ Frame({X.b, Y.b}) /\ VecFrame(X) /\ VecFrame(Y)
           /\ Descending(s, n) /\ ValuesOf(s, bd, n, n, n, FALSE, 0, FALSE, 0)
           /\ Step

\* ---- symmetric eigenvalues ----------------------------------------------------------------
\* orthonormal vectors v, g*v = d*v
EigOf(v, d, g, n) == /\ OrthoN(v, n, n)
                     /\ \A p \in Rng(n) : \A i \in Rng(n) : Near(FDot(g[i], v[p], n), FMul(d[p], v[p][i]), DotTol(n))
EigWit(g, n, f(_)) == \E x \in {Cols(mem[E.WV.b], E.WV)} : \E y \in {Vec(mem[E.WD.b], E.WD)} : EigOf(x, y, g, n) /\ f(y)

EigSym(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  X == E.D  n == A.r  up == Has("UPPER")  wv == Has("WANTV")
       IN  IF A.r # A.c \/ VLen(X) # n THEN Refused
           ELSE
           \E g \in {FSym(Rows(mem[A.b], A), n, up)} : \E d \in {Vec(Obs(X.b), X)} :
           /\ Good /\ Frame({A.b, X.b}) /\ VecFrame(X) /\ Untouched(A, All) /\ Ascending(d, n)
           /\ IF wv THEN \E v \in {Cols(Obs(A.b), A)} : EigOf(v, d, g, n) ELSE EigWit(g, n, LAMBDA y : NearVec(d, y, n))
           /\ Step
TriDiag(d, e, n) == FMat(n, n, LAMBDA i, j : IF i = j THEN d[i] ELSE IF j = i + 1 THEN e[i]
                                             ELSE IF i = j + 1 THEN e[j] ELSE FZero)
\* V*diag(D)*V' = V0*T*V0', that is V0'*V are eigenvectors of T
TrdEigen(op) ==
    /\ IsCall(op)
    /\ LET X == E.D  Y == E.E  n == VLen(X)  wv == Has("WANTV")
           ok == VLen(Y) = n - 1 /\ (IF wv THEN HasKey("V") /\ E.V.r = n /\ E.V.c = n ELSE TRUE)
       IN  IF ~ok THEN Refused
           ELSE
           \E g \in {TriDiag(Vec(mem[X.b], X), Vec(mem[Y.b], Y), n)} : \E d \in {Vec(Obs(X.b), X)} :
           /\ Good /\ Frame({X.b, Y.b} \cup (IF wv THEN {E.V.b} ELSE {})) /\ VecFrame(X) /\ VecFrame(Y) /\ Ascending(d, n)
           /\ IF wv
              THEN \E v0 \in {Cols(mem[E.V.b], E.V)} : \E v \in {Cols(Obs(E.V.b), E.V)} :
                   \E w \in {FMat(n, n, LAMBDA p, i : UF(FDot(v0[i], v[p], n)))} :
                   Untouched(E.V, All) /\ EigOf(w, d, g, n)
              ELSE EigWit(g, n, LAMBDA y : NearVec(d, y, n))
           /\ Step

CountBelow(d, n, x) == Cardinality({i \in Rng(n) : FU(d[i]) < x})
\* selection: all, index range [lo, hi), value range [lo, hi) in halves
Selects(d0, n, f(_, _)) == \E d \in {d0} :
    CASE E.sel = "all" -> f(0, n)
      [] E.sel = "int" -> f(Max2(0, E.lo), Max2(Max2(0, E.lo), Min2(E.hi, n)))
      [] OTHER -> \E a \in CountBelow(d, n, E.lo * 2097152 - Tol(8 * n))..CountBelow(d, n, E.lo * 2097152 + Tol(8 * n)) :
                  \E b \in CountBelow(d, n, E.hi * 2097152 - Tol(8 * n))..CountBelow(d, n, E.hi * 2097152 + Tol(8 * n)) :
                    f(a, Max2(a, b))
SelGood(Y, d, n) == \E y0 \in {Vec(mem[Y.b], Y)} : \E y \in {Vec(Obs(Y.b), Y)} :
    Selects(d, n, LAMBDA a, b :
       IF b - a > VLen(Y) THEN Bad
       ELSE /\ Good
            /\ \A i \in Rng(b - a) : Near(FU(y[i]), FU(d[a + i]), 8 * n)
            /\ \A i \in (b - a)..(VLen(Y) - 1) : y[i] = y0[i])
EigSel(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  Y == E.D  n == A.r
       IN  IF A.r # A.c THEN Refused
           ELSE
           \E g \in {FSym(Rows(mem[A.b], A), n, Has("UPPER"))} :
           /\ Frame({A.b, Y.b}) /\ VecFrame(Y) /\ Untouched(A, All)
           /\ EigWit(g, n, LAMBDA d : SelGood(Y, d, n))
           /\ Step
TrdBisect(op) ==
    /\ IsCall(op)
    /\ LET Y == E.Y  X == E.D  Z == E.E  n == VLen(X)
       IN  IF VLen(Z) # n - 1 THEN Refused
           ELSE
           \E g \in {TriDiag(Vec(mem[X.b], X), Vec(mem[Z.b], Z), n)} :
           /\ Frame({Y.b}) /\ VecFrame(Y)
           /\ EigWit(g, n, LAMBDA d : SelGood(Y, d, n))
           /\ Step

\* ---- rank-one update of a diagonal matrix: diag(d) + rho*z*z', z of unit length --------------
RankOne(d, z, rho, n) == FMat(n, n, LAMBDA i, j : UF((IF i = j THEN FU(d[i]) ELSE 0) + rho * FMul(z[i], z[j])))
Interlace(d, y, rho, n) == \A i \in Rng(n) :
    /\ FU(d[i]) - Tol(n) <= FU(y[i])
    /\ FU(y[i]) <= (IF i = n - 1 THEN FU(d[i]) + rho * 4194304 ELSE FU(d[i + 1])) + Tol(n)
SecSolve(op) ==
    /\ IsCall(op)
    /\ LET Y == E.Y  X == E.D  Z == E.Z  W == E.W  n == VLen(X)
       IN  IF VLen(Y) # n \/ VLen(Z) # n \/ VLen(W) # n THEN Refused
           ELSE
           \E d \in {Vec(mem[X.b], X)} : \E z \in {Vec(mem[Z.b], Z)} : \E y \in {Vec(Obs(Y.b), Y)} :
           /\ Good /\ Frame({Y.b, W.b}) /\ VecFrame(Y) /\ VecFrame(W) /\ Interlace(d, y, E.rho, n)
           /\ EigWit(RankOne(d, z, E.rho, n), n, LAMBDA w : NearVec(y, w, n))
           /\ Step
\* delta: row i of Q is d - y[i]; v: the vector for which the y are exact
SecVec(op) ==
    /\ IsCall(op)
    /\ LET Y == E.Y  X == E.D  Z == E.Z  V == E.V  Q == E.Q  n == VLen(X)
       IN  IF VLen(V) # n \/ VLen(Z) # n THEN Refused
           ELSE
           \E d \in {Vec(mem[X.b], X)} : \E z \in {Vec(mem[Z.b], Z)} : \E y \in {Vec(Obs(Y.b), Y)} :
           \E v \in {Vec(Obs(V.b), V)} : \E q \in {Rows(Obs(Q.b), Q)} :
           /\ Good /\ Frame({Y.b, V.b, Q.b}) /\ VecFrame(Y) /\ VecFrame(V) /\ Untouched(Q, All)
           /\ Interlace(d, y, E.rho, n)
           /\ \A i \in Rng(n) : \A j \in Rng(n) : Near(FU(q[i][j]), FU(d[j]) - FU(y[i]), n)
           /\ NearVec(v, z, n)
           /\ Step
\* columns of Q: eigenvectors of diag(d) + rho*z*z' for the values y
SecEigen(op) ==
    /\ IsCall(op)
    /\ LET Q == E.Q  V == E.V  n == VLen(V)  del == IF HasKey("P") THEN E.P ELSE Q
       IN  IF Q.r # Q.c \/ Q.r # n \/ del.r # del.c \/ del.r # n THEN Refused
           ELSE
           \E g \in {RankOne(Vec(mem[E.X.b], E.X), Vec(mem[E.Z.b], E.Z), E.rho, n)} :
           \E q \in {Cols(Obs(Q.b), Q)} :
           /\ Good /\ Frame({Q.b}) /\ Untouched(Q, All)
           /\ EigOf(q, Vec(mem[E.Y.b], E.Y), g, n)
           /\ Step

\* ---- 2 by 2 ----------------------------------------------------------------------------------
Svd2(op) ==
    /\ IsCall(op)
    /\ \E y \in {Vec(Obs(E.Y.b), E.Y)} :
       /\ E.err = 0 /\ Frame({E.Y.b}) /\ VecFrame(E.Y)
       /\ FU(y[0]) >= 0 /\ FU(y[1]) >= FU(y[0])
       /\ Near(FMul(y[0], y[1]), AbsV(E.f * E.h) * 4194304, 32)
       /\ Near(FMul(y[0], y[0]) + FMul(y[1], y[1]), (E.f * E.f + E.g * E.g + E.h * E.h) * 4194304, 32)
       /\ Step
\* ( cl sl; -sl cl ) ( f g; 0 h ) ( cr -sr; sr cr ) = ( max 0; 0 min )
Svd2Vec(op) ==
    /\ IsCall(op)
    /\ \E y \in {Vec(Obs(E.Y.b), E.Y)} :
       LET cl == y[2] sl == y[3] cr == y[4] sr == y[5]
           a == UF(E.f * FU(cr) + E.g * FU(sr))   b == UF(E.g * FU(cr) - E.f * FU(sr))
           c == UF(E.h * FU(sr))                  d == UF(E.h * FU(cr))
       IN
       /\ E.err = 0 /\ Frame({E.Y.b}) /\ VecFrame(E.Y)
       /\ Near(FMul(cl, cl) + FMul(sl, sl), 4194304, 1) /\ Near(FMul(cr, cr) + FMul(sr, sr), 4194304, 1)
       /\ Near(FMul(cl, a) + FMul(sl, c), FU(y[1]), 16) /\ Near(FMul(cl, b) + FMul(sl, d), 0, 16)
       /\ Near(FMul(cl, c) - FMul(sl, a), 0, 16) /\ Near(FMul(cl, d) - FMul(sl, b), FU(y[0]), 16)
       /\ AbsV(FU(y[1])) >= AbsV(FU(y[0])) - Tol(0)
       /\ Step
Eig2(op, vec) ==
    /\ IsCall(op)
    /\ \E y \in {Vec(Obs(E.Y.b), E.Y)} :
       /\ E.err = 0 /\ Frame({E.Y.b}) /\ VecFrame(E.Y)
       /\ Near(FU(y[0]) + FU(y[1]), (E.f + E.h) * 4194304, 16)
       /\ Near(FMul(y[0], y[1]), (E.f * E.h - E.g * E.g) * 4194304, 32)
       /\ IF ~vec THEN TRUE
          ELSE /\ Near(FMul(y[2], y[2]) + FMul(y[3], y[3]), 4194304, 1)
               /\ Near(E.f * FU(y[2]) + E.g * FU(y[3]), FMul(y[0], y[2]), 32)
               /\ Near(E.g * FU(y[2]) + E.h * FU(y[3]), FMul(y[0], y[3]), 32)
       /\ Step

SvdNext == \/ SvdOp("svd") \/ SvdOp("svd_w") \/ BdSvd("bdsvd") \/ BdSvd("bdsvd_w") \/ Dqds("dqds") \/ Dqds("dqds_w")
           \/ Svd2("bdsvd2x2") \/ Svd2Vec("bdsvd2x2_vec")
EigNext == \/ EigSym("eigen_sym") \/ EigSym("eigen_sym_w") \/ TrdEigen("trdeigen") \/ TrdEigen("trdeigen_w")
           \/ EigSel("eigen_sym_selected") \/ EigSel("eigen_sym_selected_w") \/ TrdBisect("trdbisect")
           \/ SecSolve("trdsec_solve") \/ SecVec("trdsec_solve_vec") \/ SecEigen("trdsec_eigen")
           \/ Eig2("sym_eigen2x2", FALSE) \/ Eig2("sym_eigen2x2vec", TRUE)
=============================================================================
