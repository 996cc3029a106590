-------------------------------- MODULE Elem --------------------------------
(* Elementary transformations: reflectors, plane rotations, hyperbolic       *)
(* reflectors, diagonal scaling, butterflies, sorting, triangular inverse.   *)
EXTENDS Redu

FTwo == <<2 * ONEH, 0>>
FRoot == <<1448, 5069>>                        \* 1/sqrt(2)
FMinus(x) == [i \in DOMAIN x |-> FNeg(x[i])]
FNonneg(x) == FU(x) >= -Tol(0)
\* head and tail of a reflected vector
Joined(h, x, n) == [i \in Rng(n) |-> IF i = 0 THEN h ELSE x[i - 1]]
NearBy(x, y, n, tol) == \A i \in Rng(n) : Near(FU(x[i]), FU(y[i]), tol)
Elt(d, X) == d[VPos(X, 0)]
\* only elements of the vectors change; vectors may lie in one buffer
VecsFrame(vs) == \A b \in {x.b : x \in vs} : \E old \in {mem[b]}, new \in {Obs(b)} :
    \E own \in {UNION {{VPos(x, i) : i \in Rng(VLen(x))} : x \in {y \in vs : y.b = b}}} :
    \A p \in 1..Len(old) : IF p \in own THEN TRUE ELSE new[p] = old[p]

\* ---- Householder reflectors ---------------------------------------------------------------
\* (H;X) := reflector that takes (h;x) to (beta;0)
House(op) ==
    /\ IsCall(op)
    /\ LET H == E.H  X == E.X  T == E.T  n == VLen(X) + 1
       IN  \E x0 \in {Joined(Elt(mem[H.b], H), Vec(mem[X.b], X), n)} :
           \E v \in {Joined(IF Has("UNIT") THEN FOne ELSE Elt(Obs(H.b), H), Vec(Obs(X.b), X), n)} :
           \E t \in {IF Has("UNIT") THEN Elt(Obs(T.b), T) ELSE FTwo} :
           \E beta \in {IF Has("UNIT") THEN Elt(Obs(H.b), H) ELSE Elt(Obs(T.b), T)} :
           /\ Good /\ Frame({H.b, X.b, T.b}) /\ VecsFrame({H, X, T})
           /\ IF \A i \in Rng(n) : v[i] = FZero THEN TRUE ELSE QIsOrth([k \in {0} |-> v], [k \in {0} |-> t], 0, 0, n)
           /\ \E y \in {Reflect(v, t, x0, n)} : NearVec(y, Joined(beta, [i \in Rng(n - 1) |-> FZero], n), n)
           /\ IF Has("NONNEG") THEN FNonneg(beta) ELSE TRUE
           /\ Step

WorkFrame(W, n) == \E old \in {mem[W.b]}, new \in {Obs(W.b)} :
    \A p \in 1..Len(old) : IF p > W.o /\ p <= W.o + n THEN TRUE ELSE new[p] = old[p]

\* lines of (a1;A2) (left) or (a1 A2) (right): the vectors the reflector acts on
Lines(d1, X, d2, A, left) == TLCEval([k \in Rng(VLen(X)) |->
    Joined(d1[VPos(X, k)], [i \in Rng(IF left THEN A.r ELSE A.c) |-> IF left THEN d2[Pos(A, i, k)] ELSE d2[Pos(A, k, i)]],
           1 + (IF left THEN A.r ELSE A.c))])
\* hyperbolic: (I - t*J*v*v')*x
HReflect(v, t, x0, n) == Bind(x0, LAMBDA x : Bind(UF(FMul(t, UF(FDot(v, x, n)))), LAMBDA w :
    TLCEval([i \in Rng(n) |-> UF(FU(x[i]) + (IF i = 0 THEN -1 ELSE 1) * FMul(v[i], w))])))
ApplySplit(op, hyper) ==
    /\ IsCall(op)
    /\ LET X == E.X  A == E.A  H == E.H  W == E.W  T == E.T  left == Has("LEFT")
           n == 1 + VLen(H)
       IN  IF VLen(W) < VLen(X) THEN Refused
           ELSE
           \E v \in {Joined(FOne, Vec(mem[H.b], H), n)} : \E t \in {Elt(mem[T.b], T)} :
           \E g \in {Lines(mem[X.b], X, mem[A.b], A, left)} : \E f \in {Lines(Obs(X.b), X, Obs(A.b), A, left)} :
           /\ Good /\ Frame({X.b, A.b, W.b}) /\ VecFrame(X) /\ Untouched(A, All) /\ WorkFrame(W, VLen(X))
           /\ \A k \in Rng(VLen(X)) :
                \E y \in {IF hyper THEN HReflect(v, t, g[k], n) ELSE Reflect(v, t, g[k], n)} : NearVec(y, f[k], n)
           /\ Step

\* A := H*A or A*H, H unit scaled when a scalar is given
HApply(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  H == E.H  scaled == HasKey("T")  right == Has("RIGHT")
           vecA == IsVec(A)
           n == IF vecA THEN Size(A) ELSE IF right THEN A.c ELSE A.r
           m == IF vecA THEN 1 ELSE IF right THEN A.r ELSE A.c
       IN  IF VLen(H) # (IF scaled THEN n - 1 ELSE n) THEN Refused
           ELSE IF ~vecA /\ (IF HasKey("W") THEN VLen(E.W) < m ELSE TRUE) THEN Refused
           ELSE
           \E v \in {IF scaled THEN Joined(FOne, Vec(mem[H.b], H), n) ELSE Vec(mem[H.b], H)} :
           \E t \in {IF scaled THEN Elt(mem[E.T.b], E.T) ELSE FTwo} :
           \E g \in {IF vecA THEN [k \in {0} |-> Vec(mem[A.b], A)] ELSE IF right THEN Rows(mem[A.b], A) ELSE Cols(mem[A.b], A)} :
           \E f \in {IF vecA THEN [k \in {0} |-> Vec(Obs(A.b), A)] ELSE IF right THEN Rows(Obs(A.b), A) ELSE Cols(Obs(A.b), A)} :
           /\ Good /\ Frame(IF HasKey("W") THEN {A.b, E.W.b} ELSE {A.b}) /\ Untouched(A, All)
           /\ IF HasKey("W") THEN WorkFrame(E.W, m) ELSE TRUE
           /\ \A k \in Rng(m) : \E y \in {Reflect(v, t, g[k], n)} : NearVec(y, f[k], n)
           /\ Step

\* X := op(Q)*X or X*op(Q), Q = H0*H1*...; reflectors in the columns of Q
HMult(op) ==
    /\ IsCall(op)
    /\ LET X == E.X  Q == E.Q  right == Has("RIGHT")  n == Q.r  k == Q.c
       IN  IF (IF Has("UNIT") THEN VLen(E.T) # k ELSE FALSE) \/ (IF right THEN X.c ELSE X.r) # n THEN Refused
           ELSE
           \E a \in {Rows(mem[Q.b], Q)} :
           \E vs \in {TLCEval([j \in Rng(k) |-> TLCEval([i \in Rng(n) |->
                 IF i < j THEN FZero ELSE IF i = j /\ Has("UNIT") THEN FOne ELSE a[i][j]])])} :
           \E t \in {IF Has("UNIT") THEN Vec(mem[E.T.b], E.T) ELSE [j \in Rng(k) |-> FTwo]} :
           \E g \in {IF right THEN Rows(mem[X.b], X) ELSE Cols(mem[X.b], X)} :
           \E f \in {IF right THEN Rows(Obs(X.b), X) ELSE Cols(Obs(X.b), X)} :
           /\ Good /\ Frame({X.b}) /\ Untouched(X, All)
           /\ \A j \in DOMAIN g :
                \E y \in {ReflectSeq(vs, t, IF Has("TRANSA") # right THEN AscSeq(0, k - 1) ELSE DescSeq(0, k - 1), g[j], n)} :
                  NearVec(y, f[j], n)
           /\ Step

\* hyperbolic reflector: takes (h;x) to +-(beta;0), H*J*H' = J
HHouse(op) ==
    /\ IsCall(op)
    /\ LET H == E.H  X == E.X  T == E.T  n == VLen(X) + 1
       IN  \E x0 \in {Joined(Elt(mem[H.b], H), Vec(mem[X.b], X), n)} :
           \E sq \in {FoldFunction(+, 0, [i \in 1..(n - 1) |-> FMul(x0[i], x0[i])])} :
           IF sq > 0 /\ FMul(x0[0], x0[0]) <= sq THEN Refused
           ELSE
           \E v \in {Joined(FOne, Vec(Obs(X.b), X), n)} : \E t \in {Elt(Obs(T.b), T)} : \E beta \in {Elt(Obs(H.b), H)} :
           /\ Good /\ Frame({H.b, X.b, T.b}) /\ VecsFrame({H, X, T})
           /\ IF t = FZero THEN TRUE
              ELSE Near(FMul(t, UF(FDot(v, v, n))), 2 * FU(t) - 2 * 4194304, 8 * n)   \* t*(1 - v'v) = 2
           /\ \E y \in {HReflect(v, t, x0, n)} :
                NearBy(y, Joined(IF Has("HHNEGATIVE") THEN FNeg(beta) ELSE beta, [i \in Rng(n - 1) |-> FZero], n), n, 8 * n)
           /\ IF Has("NONNEG") THEN FNonneg(beta) ELSE TRUE
           /\ Step

\* ---- plane rotations ----------------------------------------------------------------------
GvCompute(op) ==
    /\ IsCall(op)
    /\ LET X == E.X  Y == E.Y
       IN  \E x \in {Vec(mem[X.b], X)} : \E y \in {Vec(Obs(Y.b), Y)} :
           /\ E.err = 0 /\ Frame({Y.b}) /\ VecFrame(Y)
           /\ Near(FMul(y[0], y[0]) + FMul(y[1], y[1]), 4194304, 2)
           /\ Near(FMul(y[0], x[0]) + FMul(y[1], x[1]), FU(y[2]), 4)
           /\ Near(FMul(y[0], x[1]) - FMul(y[1], x[0]), 0, 4)
           /\ Step
\* the first and second component of G(c,s)*(p;q), in units
Rot1(c, s, p, q) == FMul(c, p) + FMul(s, q)
Rot2(c, s, p, q) == FMul(c, q) - FMul(s, p)
GvVec(op) ==
    /\ IsCall(op)
    /\ LET X == E.X  Y == E.Y
       IN  \E cs2 \in {Vec(mem[E.C.b], E.C)} : \E x0 \in {Vec(mem[X.b], X)} : \E y0 \in {Vec(mem[Y.b], Y)} :
           \E x1 \in {Vec(Obs(X.b), X)} : \E y1 \in {Vec(Obs(Y.b), Y)} :
           /\ Good /\ Frame({X.b, Y.b}) /\ VecFrame(X) /\ VecFrame(Y)
           /\ \A i \in Rng(VLen(X)) : /\ Near(Rot1(cs2[0], cs2[1], x0[i], y0[i]), FU(x1[i]), 2)
                                      /\ Near(Rot2(cs2[0], cs2[1], x0[i], y0[i]), FU(y1[i]), 2)
           /\ Step
\* one rotation of two rows (columns) in a range of columns (rows); a line paired with itself is scaled
GvSide(op, left) ==
    /\ IsCall(op)
    /\ LET A == E.A  lo == E.lo  hi == Min2(E.lo + E.n, IF left THEN A.c ELSE A.r)
       IN  \E cs2 \in {Vec(mem[E.C.b], E.C)} :
           \E g \in {IF left THEN Rows(mem[A.b], A) ELSE Cols(mem[A.b], A)} :
           \E f \in {IF left THEN Rows(Obs(A.b), A) ELSE Cols(Obs(A.b), A)} :
           /\ E.err = 0 /\ Frame({A.b})
           /\ Untouched(A, LAMBDA i, j : LET l == IF left THEN i ELSE j  p == IF left THEN j ELSE i
                                         IN  (l = E.k1 \/ l = E.k2) /\ p >= lo /\ p < hi)
           /\ \A p \in lo..(hi - 1) :
                IF E.k1 = E.k2 THEN Near(FMul(cs2[0], g[E.k1][p]), FU(f[E.k1][p]), 2)
                ELSE /\ Near(Rot1(cs2[0], cs2[1], g[E.k1][p], g[E.k2][p]), FU(f[E.k1][p]), 2)
                     /\ Near(Rot2(cs2[0], cs2[1], g[E.k1][p], g[E.k2][p]), FU(f[E.k2][p]), 2)
           /\ Step
\* a sequence of rotations of neighbouring lines
RECURSIVE RotSeq(_, _, _, _, _)
RotSeq(c, s, sq, st, x0) ==
    IF sq = <<>> THEN x0
    ELSE Bind(x0, LAMBDA x : Bind(Head(sq), LAMBDA k :
            RotSeq(c, s, Tail(sq), st,
               [x EXCEPT ![st + k] = UF(Rot1(c[k], s[k], x[st + k], x[st + k + 1])),
                         ![st + k + 1] = UF(Rot2(c[k], s[k], x[st + k], x[st + k + 1]))])))
GvUpdate(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  left == Has("LEFT")  n == IF left THEN A.r ELSE A.c
           cnt == Max2(0, Min2(E.n, n - 1 - E.lo))
           sq == IF Has("BACKWARD") THEN DescSeq(0, cnt - 1) ELSE AscSeq(0, cnt - 1)
       IN  \E c \in {Vec(mem[E.C.b], E.C)} : \E s \in {Vec(mem[E.S.b], E.S)} :
           \E g \in {IF left THEN Cols(mem[A.b], A) ELSE Rows(mem[A.b], A)} :
           \E f \in {IF left THEN Cols(Obs(A.b), A) ELSE Rows(Obs(A.b), A)} :
           /\ E.ret = cnt /\ E.err = 0 /\ Frame({A.b}) /\ Untouched(A, All)
           /\ \A p \in DOMAIN g : \E y \in {RotSeq(c, s, sq, E.lo, g[p])} : NearVec(y, f[p], n)
           /\ Step

\* ---- diagonal matrices --------------------------------------------------------------------
DiagVec(d, V) == IF IsVec(V) THEN Vec(d, V) ELSE [i \in Rng(V.r) |-> d[Pos(V, i, i)]]
DiagLen(V) == IF IsVec(V) THEN VLen(V) ELSE Min2(V.r, V.c)
DiagOp(op, solve) ==
    /\ IsCall(op)
    /\ LET A == E.A  V == E.D  n == DiagLen(V)  flat == IsVec(A) /\ Size(A) = n
           idx(i, j) == IF flat THEN Max2(i, j) ELSE IF Has("RIGHT") THEN j ELSE i
       IN  IF ~flat /\ n # (IF Has("RIGHT") THEN A.c ELSE A.r) THEN Refused
           ELSE
           \E w \in {DiagVec(mem[V.b], V)} : \E g \in {Rows(mem[A.b], A)} : \E f \in {Rows(Obs(A.b), A)} :
           /\ Good /\ Frame({A.b}) /\ Untouched(A, All)
           /\ \A i \in Rng(A.r) : \A j \in Rng(A.c) :
                IF solve THEN Near(FMul(f[i][j], w[idx(i, j)]), FMul(E.al, g[i][j]), 4)
                ELSE Near(FMul(UF(FMul(E.al, w[idx(i, j)])), g[i][j]), FU(f[i][j]), 4)
           /\ Step

\* ---- random butterflies -------------------------------------------------------------------
\* Column j of R (n rows, d columns) holds the butterflies of size Nd/2^(d-1-j), Nd the first multiple
\* of 2^d not less than n.  Level matrix times x, leading n rows and columns of it.
NdOf(n, d) == ((n + 2^d - 1) \div 2^d) * 2^d
BSize(n, d, j) == NdOf(n, d) \div 2^(d - 1 - j)
BFly(r, n, h, x0, trans) == Bind(x0, LAMBDA x : TLCEval([i \in Rng(n) |->
    LET top == (i % (2 * h)) < h   o == IF top THEN i + h ELSE i - h
    IN  IF trans
        THEN UF(FMul(r[i], UF((IF top THEN FU(x[i]) ELSE -FU(x[i])) + (IF o < n THEN FU(x[o]) ELSE 0))))
        ELSE UF((IF top THEN FMul(r[i], x[i]) ELSE -FMul(r[i], x[i])) + (IF o < n THEN FMul(r[o], x[o]) ELSE 0))]))
RECURSIVE BSeq(_, _, _, _, _, _)
BSeq(rc, n, d, js, x, trans) == IF js = <<>> THEN x
    ELSE Bind(BFly(rc[Head(js)], n, BSize(n, d, Head(js)) \div 2, x, trans), LAMBDA y : BSeq(rc, n, d, Tail(js), y, trans))
RECURSIVE RootPow(_, _)
RootPow(x, d) == IF d = 0 THEN x ELSE IF d > 1 THEN RootPow(UF(FU(x) \div 2), d - 2) ELSE UF(FMul(x, FRoot))
\* R*x = B<n/k>*...*B<n>*x or R'*x
Butter(rc, n, d, x0, trans) == Bind(BSeq(rc, n, d, IF trans THEN AscSeq(0, d - 1) ELSE DescSeq(0, d - 1), x0, trans),
    LAMBDA y : TLCEval([i \in Rng(n) |-> RootPow(y[i], d)]))
RbtMult(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  V == E.R  d == V.c  right == Has("RIGHT")  n == IF right THEN A.c ELSE A.r
       IN  IF V.r # n THEN Refused
           ELSE
           \E rc \in {Cols(mem[V.b], V)} :
           \E g \in {IF right THEN Rows(mem[A.b], A) ELSE Cols(mem[A.b], A)} :
           \E f \in {IF right THEN Rows(Obs(A.b), A) ELSE Cols(Obs(A.b), A)} :
           /\ Good /\ Frame({A.b}) /\ Untouched(A, All)
           /\ \A j \in DOMAIN g : \E y \in {Butter(rc, n, d, g[j], Has("TRANSA") # right)} : NearBy(y, f[j], n, 8 * n)
           /\ Step
\* A := U'*A*V
RbtUpdate(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  U == E.U  V == E.V  n == A.r  d == U.c
       IN  IF A.r # A.c \/ U.r # V.r \/ U.c # V.c \/ U.r < n THEN Refused
           ELSE
           \E uc \in {Cols(mem[U.b], U)} : \E vc \in {Cols(mem[V.b], V)} :
           \E g \in {Cols(mem[A.b], A)} : \E f \in {Rows(Obs(A.b), A)} :
           \E z \in {FT([j \in Rng(n) |-> Butter(uc, n, d, g[j], TRUE)], n, n)} :     \* rows of U'*A
           /\ Good /\ Frame({A.b}) /\ Untouched(A, All)
           /\ \A i \in Rng(n) : \E y \in {Butter(vc, n, d, z[i], TRUE)} : NearBy(y, f[i], n, 8 * n)
           /\ Step
RbtSize(op) == /\ IsCall(op) /\ E.val = NdOf(E.n, E.d) /\ E.err = 0 /\ Unchanged
               /\ IF HasKey("fact") THEN E.fact = 2^(E.d - 1) ELSE TRUE
               /\ Step

\* ---- sorting (integers) -------------------------------------------------------------------
Ordered(x, n, up, f(_)) == \A i \in 1..(n - 1) : IF up THEN f(x[i - 1]) <= f(x[i]) ELSE f(x[i - 1]) >= f(x[i])
SameBag(x, y, n) == \A i \in Rng(n) : Cardinality({j \in Rng(n) : x[j] = y[i]}) = Cardinality({j \in Rng(n) : y[j] = y[i]})
SortVec(op, f(_)) ==
    /\ IsCall(op)
    /\ LET V == E.D  n == VLen(V)
       IN  \E x \in {Vec(mem[V.b], V)} : \E y \in {Vec(Obs(V.b), V)} :
           /\ Good /\ Frame({V.b}) /\ VecFrame(V)
           /\ Ordered(y, n, E.dirn > 0, f) /\ SameBag(x, y, n)
           /\ Step
\* the eigenvalue, its vectors in U (column), V (row) and C (column or element)
Pack(m(_), n) == TLCEval([i \in Rng(n) |-> <<m(E.D.b)[VPos(E.D, i)],
     IF HasKey("U") THEN [p \in Rng(E.U.r) |-> m(E.U.b)[Pos(E.U, p, i)]] ELSE 0,
     IF HasKey("V") THEN [p \in Rng(E.V.c) |-> m(E.V.b)[Pos(E.V, i, p)]] ELSE 0,
     IF HasKey("C") THEN IF IsVec(E.C) THEN m(E.C.b)[VPos(E.C, i)] ELSE [p \in Rng(E.C.r) |-> m(E.C.b)[Pos(E.C, p, i)]] ELSE 0>>])
SortEigen(op) ==
    /\ IsCall(op)
    /\ LET n == VLen(E.D)
       IN  IF ~IsVec(E.D) THEN E.ret < 0 /\ Unchanged /\ Step
           ELSE
           \E x \in {Pack(LAMBDA b : mem[b], n)} : \E y \in {Pack(LAMBDA b : Obs(b), n)} :
           /\ Good /\ Frame({E[k].b : k \in {"D", "U", "V", "C"} \cap DOMAIN E}) /\ VecFrame(E.D)
           /\ IF HasKey("U") THEN Untouched(E.U, LAMBDA i, j : j < n) ELSE TRUE
           /\ IF HasKey("V") THEN Untouched(E.V, LAMBDA i, j : i < n) ELSE TRUE
           /\ IF HasKey("C") THEN Untouched(E.C, All) ELSE TRUE
           /\ Ordered(y, n, E.dirn > 0, LAMBDA t : t[1]) /\ SameBag(x, y, n)
           /\ Step

\* ---- inverse of a triangular matrix -------------------------------------------------------
FTri(a, n, up, unit) == FMat(n, n, LAMBDA i, j : IF i = j /\ unit THEN FOne ELSE IF InTri(up, i, j) THEN a[i][j] ELSE FZero)
InvTrm(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  n == A.r  up == ~Has("LOWER")  unit == Has("UNIT")
           own(i, j) == InTri(up, i, j) /\ ~(unit /\ i = j)
       IN  IF A.r # A.c THEN Refused
           ELSE
           \E g \in {FTri(Rows(mem[A.b], A), n, up, unit)} : \E h \in {FTri(Rows(Obs(A.b), A), n, up, unit)} :
           /\ Frame({A.b}) /\ Untouched(A, LAMBDA i, j : own(i, j))
           /\ IF \E i \in Rng(n) : g[i][i] = FZero THEN Bad
              ELSE Good /\ ProdIs(g, FT(h, n, n), FMat(n, n, Unit), n, n, n)
           /\ Step

\* ---- quadratic equation a*x^2 - 2*b*x + c ---------------------------------------------------
Roots(op) ==
    /\ IsCall(op)
    /\ LET a == E.a  b == E.b  c == E.c  d == b * b - a * c
       IN  \E y \in {Vec(Obs(E.Y.b), E.Y)} :
           /\ E.err = 0 /\ Frame({E.Y.b}) /\ VecFrame(E.Y)
           /\ IF d >= 0
              THEN /\ IF d > 0 THEN E.ret = 0 ELSE TRUE
                   /\ IF E.ret = 0
                      THEN /\ Near(a * (FU(y[0]) + FU(y[1])), 2 * b * 4194304, 8)
                           /\ Near(FMul(<<a * ONEH, 0>>, UF(FMul(y[0], y[1]))), c * 4194304, 8)
                           /\ AbsV(FU(y[0])) >= AbsV(FU(y[1])) - Tol(1)
                      ELSE Near(a * FU(y[0]), b * 4194304, 8)
              ELSE \* real and imaginary part
                   /\ E.ret # 0
                   /\ Near(a * FU(y[0]), b * 4194304, 8)
                   /\ Near(FMul(UF(a * FU(y[1])), UF(a * FU(y[1]))), -d * 4194304, 32)
           /\ Step
\* b^2 - a*c for a = 2^27 + j, b = 2^27 + i, c = 2^27 + k with 2*i = j + k
Discr(op) == /\ IsCall(op) /\ E.err = 0 /\ Unchanged
             /\ 2 * E.i = E.j + E.l /\ E.val = E.i * E.i - E.j * E.l
             /\ Step

ElemNext == \/ House("house") \/ ApplySplit("houseapply2x1", FALSE) \/ ApplySplit("hhouse_apply", TRUE)
            \/ HApply("houseapply") \/ HMult("housemult") \/ HMult("housemult_w") \/ HHouse("hhouse")
            \/ GvCompute("gvcompute") \/ GvVec("gvrot_vec") \/ GvSide("gvleft", TRUE) \/ GvSide("gvright", FALSE)
            \/ GvUpdate("gvupdate")
            \/ DiagOp("mult_diag", FALSE) \/ DiagOp("solve_diag", TRUE)
            \/ RbtMult("mult_rbt") \/ RbtUpdate("update2_rbt") \/ RbtSize("size_rbt")
            \/ SortVec("sort_vec", LAMBDA v : v) \/ SortVec("abs_sort_vec", AbsV) \/ SortVec("qsort_vec", LAMBDA v : v)
            \/ SortEigen("sort_eigenvec") \/ InvTrm("inverse_trm")
            \/ Roots("qdroots") \/ Discr("discriminant")
=============================================================================
