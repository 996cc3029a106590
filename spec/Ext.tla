--------------------------------- MODULE Ext ---------------------------------
(* Extended precision.  A number is a quadruple <<c0,c1,c2,c3>> of digits to *)
(* the base 2^30, the integer c0 + c1*2^30 + c2*2^60 + c3*2^90; stored       *)
(* numbers have digits of magnitude at most 2^29, so that the quadruple is   *)
(* unique.  Expressions are evaluated exactly; a result is right when it is  *)
(* the exact value rounded to working precision: equal to it in every digit  *)
(* if it has no more than two, and within a few units of the last place of   *)
(* its top digit otherwise.                                                  *)
EXTENDS Compat

ExB == 1073741824
ExH == 536870912
ExZero == <<0, 0, 0, 0>>
ExOne == <<1, 0, 0, 0>>
ExAdd(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]>>
ExMul(x, y) == <<x[1] * y[1], x[1] * y[2] + x[2] * y[1], x[1] * y[3] + x[2] * y[2] + x[3] * y[1],
                 x[1] * y[4] + x[2] * y[3] + x[3] * y[2] + x[4] * y[1]>>
ExSub(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4]>>
ExAbs(x) == IF (IF x[4] # 0 THEN x[4] ELSE IF x[3] # 0 THEN x[3] ELSE IF x[2] # 0 THEN x[2] ELSE x[1]) < 0
            THEN ExSub(ExZero, x) ELSE x
\* sum over k in 0..n-1 of products; numbers with two digits at most
ExDot(a, b, n) == <<FoldFunction(+, 0, [k \in 0..(n - 1) |-> a[k][1] * b[k][1]]),
                    FoldFunction(+, 0, [k \in 0..(n - 1) |-> a[k][1] * b[k][2] + a[k][2] * b[k][1]]),
                    FoldFunction(+, 0, [k \in 0..(n - 1) |-> a[k][2] * b[k][2]]), 0>>
\* the same for any numbers
ExDotW(a, b, n) == FoldFunction(ExAdd, ExZero, [k \in 0..(n - 1) |-> ExMul(a[k], b[k])])
ExSum(x) == FoldFunction(ExAdd, ExZero, x)
ExScaled(be, o) == IF be = ExZero THEN ExZero ELSE ExMul(be, o)

ExTop(e) == IF e[4] # 0 THEN 4 ELSE IF e[3] # 0 THEN 3 ELSE IF e[2] # 0 THEN 2 ELSE 1
\* carry between digits so that all but the last are in -2^29..2^29-1
ExCarry(x) == (x + ExH) \div ExB
ExNorm(x) ==
    Bind(ExCarry(x[1]), LAMBDA a : Bind(ExCarry(x[2] + a), LAMBDA b : Bind(ExCarry(x[3] + b), LAMBDA c :
        <<x[1] - a * ExB, x[2] + a - b * ExB, x[3] + b - c * ExB, x[4] + c>>)))
\* observed r is the exact value e in working precision
ExIs(r0, e0) == Bind(r0, LAMBDA r : Bind(ExNorm(e0), LAMBDA e :
    IF r[1] = SENT THEN FALSE
    ELSE IF ExTop(e) = 1 THEN r = e
    ELSE Bind(ExTop(e), LAMBDA t : Bind(ExNorm(ExSub(r, e)), LAMBDA d :
             IF t = 2 THEN /\ d[2] = 0 /\ d[3] = 0 /\ d[4] = 0
                           /\ AbsV(d[1]) <= AbsV(e[2]) \div 1048576
             ELSE /\ \A k \in 1..4 : IF k > t - 2 THEN d[k] = 0 ELSE TRUE
                  /\ AbsV(d[t - 2]) <= 2048 * Min2(AbsV(e[t]), 100000)))))
ExSane(x) == \A k \in 1..2 : x[k] <= 20000 /\ x[k] >= -20000 /\ x[k + 2] = 0

\* buffer of v: f(i,j) in working precision where in(i,j), anything else as it was
ExUpdated(v, in(_, _), f(_, _)) ==
    \E old \in {mem[v.b]}, new \in {Obs(v.b)} :
        \A p \in 1..Len(old) :
            LET q == p - 1 - v.o
                j == q \div v.s
                i == q % v.s
            IN  IF q >= 0 /\ j < v.c /\ i < v.r /\ in(i, j) THEN ExIs(new[p], f(i, j)) ELSE new[p] = old[p]
ExUpdatedV(v, f(_)) ==
    \E old \in {mem[v.b]}, new \in {Obs(v.b)}, st \in {IF v.r = 1 THEN v.s ELSE 1}, n \in {VLen(v)} :
        \A p \in 1..Len(old) :
            LET q == p - 1 - v.o
                k == q \div st
            IN  IF q >= 0 /\ q % st = 0 /\ k < n THEN ExIs(new[p], f(k)) ELSE new[p] = old[p]

ExRows(v, tr) == IF tr THEN Cols(mem[v.b], v) ELSE Rows(mem[v.b], v)
ExVec(v) == Vec(mem[v.b], v)
ExSym(a0, n) == Bind(a0, LAMBDA a : MkRows(n, n, LAMBDA i, j : IF InTri(Up, i, j) THEN a[i][j] ELSE a[j][i]))
ExTri(A) == Bind(Rows(mem[A.b], A), LAMBDA a : Bind(MkRows(A.r, A.c, LAMBDA i, j :
                IF i = j /\ Has("UNIT") THEN ExOne ELSE IF InTri(Up, i, j) THEN a[i][j] ELSE ExZero), LAMBDA t :
                IF TrA THEN Transpose(t, A.r, A.c) ELSE t))
ExBe(o) == ExScaled(E.be, o)
ExAl(x) == ExMul(E.al, x)

ExMult == /\ IsCall("ext_mult")
          /\ LET A == E.A  B == E.B  C == E.C
                 n == OpC(A, TrA)
             IN IF Size(A) = 0 \/ Size(B) = 0 \/ Size(C) = 0 THEN Noop
                ELSE IF ~(C.r = OpR(A, TrA) /\ C.c = OpC(B, TrB) /\ n = OpR(B, TrB)) THEN Refused
                ELSE \E ar \in {ExRows(A, TrA)}, bc \in {ExRows(B, ~TrB)}, c0 \in {Rows(mem[C.b], C)} :
                     /\ Good /\ Frame({C.b})
                     /\ ExUpdated(C, All, LAMBDA i, j : ExAdd(ExBe(c0[i][j]), ExAl(ExDot(ar[i], bc[j], n))))
                     /\ Step
ExMultSym == /\ IsCall("ext_mult_sym")
             /\ LET A == E.A  B == E.B  C == E.C
                    right == Has("RIGHT")
                    n == A.r
                    trb == Has("TRANSB")
                IN IF Size(A) = 0 \/ Size(B) = 0 \/ Size(C) = 0 THEN Noop
                   ELSE IF ~( /\ A.r = A.c
                              /\ IF right THEN C.r = OpR(B, trb) /\ C.c = n /\ OpC(B, trb) = n
                                          ELSE C.r = n /\ C.c = OpC(B, trb) /\ OpR(B, trb) = n) THEN Refused
                   ELSE \E s \in {ExSym(Rows(mem[A.b], A), n)} : \E br \in {ExRows(B, trb)} :
                        \E bc \in {ExRows(B, ~trb)} : \E c0 \in {Rows(mem[C.b], C)} :
                        /\ Good /\ Frame({C.b})
                        /\ ExUpdated(C, All, LAMBDA i, j : ExAdd(ExBe(c0[i][j]),
                                ExAl(IF right THEN ExDot(br[i], s[j], n) ELSE ExDot(s[i], bc[j], n))))
                        /\ Step
ExMultTrm == /\ IsCall("ext_mult_trm")
             /\ LET A == E.A  B == E.B  n == A.r
                IN IF Size(A) = 0 \/ Size(B) = 0 THEN Noop
                   ELSE IF ~TrmShapeOk(A, B) THEN Refused
                   ELSE \E t \in {ExTri(A)} : \E tc \in {Transpose(t, n, n)} :
                        \E br \in {Rows(mem[B.b], B)} : \E bc \in {Cols(mem[B.b], B)} :
                        /\ Good /\ Frame({B.b})
                        /\ ExUpdated(B, All, LAMBDA i, j :
                                ExAl(IF Has("RIGHT") THEN ExDot(br[i], tc[j], n) ELSE ExDot(t[i], bc[j], n)))
                        /\ Step
ExSolveTrm == /\ IsCall("ext_solve_trm")
              /\ LET A == E.A  B == E.B  n == A.r
                 IN IF Size(A) = 0 \/ Size(B) = 0 THEN Noop
                    ELSE IF ~TrmShapeOk(A, B) THEN Refused
                    ELSE \E t \in {ExTri(A)} : \E tc \in {Transpose(t, n, n)} : \E b0 \in {Rows(mem[B.b], B)} :
                         \E xr \in {Rows(Obs(B.b), B)} : \E xc \in {Cols(Obs(B.b), B)} :
                         /\ Good /\ Frame({B.b}) /\ Untouched(B, All)
                         /\ \A i \in Rng(B.r), j \in Rng(B.c) : ExSane(xr[i][j])
                         /\ \A i \in Rng(B.r), j \in Rng(B.c) :
                              ExNorm(IF Has("RIGHT") THEN ExDot(xr[i], tc[j], n) ELSE ExDot(t[i], xc[j], n))
                                = ExNorm(ExAl(b0[i][j]))
                         /\ Step
ExMVMult == /\ IsCall("ext_mvmult")
            /\ LET A == E.A  X == E.X  Y == E.Y
               IN IF Size(A) = 0 \/ Size(X) = 0 \/ Size(Y) = 0 THEN Noop
                  ELSE IF NotVec(X) \/ NotVec(Y) \/ VLen(X) # OpC(A, TrA) \/ VLen(Y) # OpR(A, TrA) THEN Refused
                  ELSE \E ar \in {ExRows(A, TrA)} : \E x \in {ExVec(X)} : \E y0 \in {ExVec(Y)} :
                       /\ Good /\ Frame({Y.b})
                       /\ ExUpdatedV(Y, LAMBDA i : ExAdd(ExBe(y0[i]), ExAl(ExDot(ar[i], x, VLen(X)))))
                       /\ Step
ExMVMultSym == /\ IsCall("ext_mvmult_sym")
               /\ LET A == E.A  X == E.X  Y == E.Y  n == A.r
                  IN IF Size(A) = 0 \/ Size(X) = 0 \/ Size(Y) = 0 THEN Noop
                     ELSE IF NotVec(X) \/ NotVec(Y) \/ A.r # A.c \/ VLen(X) # n \/ VLen(Y) # n THEN Refused
                     ELSE \E s \in {ExSym(Rows(mem[A.b], A), n)} : \E x \in {ExVec(X)} : \E y0 \in {ExVec(Y)} :
                          /\ Good /\ Frame({Y.b})
                          /\ ExUpdatedV(Y, LAMBDA i : ExAdd(ExBe(y0[i]), ExAl(ExDot(s[i], x, n))))
                          /\ Step
ExMVMultTrm == /\ IsCall("ext_mvmult_trm")
               /\ LET A == E.A  X == E.X  n == A.r
                  IN IF Size(A) = 0 \/ Size(X) = 0 THEN Noop
                     ELSE IF NotVec(X) \/ A.r # A.c \/ VLen(X) # n THEN Refused
                     ELSE \E t \in {ExTri(A)} : \E x \in {ExVec(X)} :
                          /\ Good /\ Frame({X.b})
                          /\ ExUpdatedV(X, LAMBDA i : ExAl(ExDot(t[i], x, n)))
                          /\ Step
ExMVSolveTrm == /\ IsCall("ext_mvsolve_trm")
                /\ LET A == E.A  X == E.X  n == A.r
                   IN IF Size(A) = 0 \/ Size(X) = 0 THEN Noop
                      ELSE IF NotVec(X) \/ A.r # A.c \/ VLen(X) # n THEN Refused
                      ELSE \E t \in {ExTri(A)} : \E b \in {ExVec(X)} : \E x \in {Vec(Obs(X.b), X)} :
                           /\ Good /\ Frame({X.b})
                           /\ \A i \in Rng(n) : ExSane(x[i])
                           /\ UpdatedV(X, LAMBDA i : x[i])
                           /\ \A i \in Rng(n) : ExNorm(ExDot(t[i], x, n)) = ExNorm(ExAl(b[i]))
                           /\ Step
ExRank(in(_, _), val(_, _, _, _)) ==
    LET A == E.A  X == E.X  Y == IF HasKey("Y") THEN E.Y ELSE E.X
    IN  \E x \in {ExVec(X)} : \E y \in {ExVec(Y)} : \E a0 \in {Rows(mem[A.b], A)} :
            /\ Good /\ Frame({A.b})
            /\ ExUpdated(A, in, LAMBDA i, j : ExAdd(ExBe(a0[i][j]), ExAl(val(x, y, i, j))))
            /\ Step
ExXY(x, y, i, j) == ExMul(x[i], y[j])
ExXYYX(x, y, i, j) == ExAdd(ExMul(x[i], y[j]), ExMul(y[i], x[j]))
ExMVUpdate ==
    /\ IsCall("ext_mvupdate")
    /\ IF Size(E.A) = 0 \/ Size(E.X) = 0 \/ Size(E.Y) = 0 THEN Noop
       ELSE IF NotVec(E.X) \/ NotVec(E.Y) \/ VLen(E.X) # E.A.r \/ VLen(E.Y) # E.A.c THEN Refused
       ELSE ExRank(All, ExXY)
ExMVUpdateSym ==
    /\ IsCall("ext_mvupdate_sym")
    /\ IF Size(E.A) = 0 \/ Size(E.X) = 0 THEN Noop
       ELSE IF NotVec(E.X) \/ VLen(E.X) # E.A.r \/ VLen(E.X) # E.A.c THEN Refused
       ELSE ExRank(LAMBDA i, j : InTri(Up, i, j), ExXY)
ExMVUpdate2Sym ==
    /\ IsCall("ext_mvupdate2_sym")
    /\ IF Size(E.A) = 0 \/ Size(E.X) = 0 \/ Size(E.Y) = 0 THEN Noop
       ELSE IF NotVec(E.X) \/ NotVec(E.Y) \/ E.A.r # E.A.c \/ VLen(E.X) # E.A.r \/ VLen(E.Y) # E.A.r THEN Refused
       ELSE ExRank(LAMBDA i, j : InTri(Up, i, j), ExXYYX)
ExAxpby ==
    /\ IsCall("ext_axpby")
    /\ IF NotVec(E.X) \/ NotVec(E.Y) \/ VLen(E.X) # VLen(E.Y) THEN Refused
       ELSE \E x \in {ExVec(E.X)} : \E y0 \in {ExVec(E.Y)} :
            /\ Good /\ Frame({E.Y.b})
            /\ ExUpdatedV(E.Y, LAMBDA i : ExAdd(ExBe(y0[i]), ExAl(x[i])))
            /\ Step
ExADot ==
    /\ IsCall("ext_adot")
    /\ IF NotVec(E.X) \/ NotVec(E.Y) \/ VLen(E.X) # VLen(E.Y) THEN Refused
       ELSE \E x \in {ExVec(E.X)} : \E y \in {ExVec(E.Y)} :
            Good /\ Unchanged /\ ExIs(E.val, ExAl(ExDotW(x, y, VLen(E.X)))) /\ Step
ExSumOp ==
    /\ IsCall("ext_sum")
    /\ IF NotVec(E.X) THEN Refused
       ELSE \E x \in {ExVec(E.X)} :
            /\ Good /\ Unchanged
            /\ ExIs(E.val, ExAl(ExSum(IF Has("ABSA") THEN [i \in DOMAIN x |-> ExAbs(x[i])] ELSE x)))
            /\ Step

ExtNext == \/ ExMult \/ ExMultSym \/ ExMultTrm \/ ExSolveTrm \/ ExMVMult \/ ExMVMultSym \/ ExMVMultTrm
           \/ ExMVSolveTrm \/ ExMVUpdate \/ ExMVUpdateSym \/ ExMVUpdate2Sym \/ ExAxpby \/ ExADot \/ ExSumOp
=============================================================================
