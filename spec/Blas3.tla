-------------------------------- MODULE Blas3 --------------------------------
(* Level-3 operations, each defined by its mathematical effect.              *)
EXTENDS Machine

TrA == Has("TRANSA") \/ Has("CTRANSA")
TrB == Has("TRANSB") \/ Has("CTRANSB")
Up == Has("UPPER")

\* op(X) as rows: function of i giving the row vector k -> value
OpRows(v, tr, ab) ==
    Bind(IF tr THEN Cols(mem[v.b], v) ELSE Rows(mem[v.b], v), LAMBDA a :
         IF ab THEN MkRows(IF tr THEN v.c ELSE v.r, IF tr THEN v.r ELSE v.c, LAMBDA i, j : AbsV(a[i][j]))
         ELSE a)
OpR(v, tr) == IF tr THEN v.c ELSE v.r
OpC(v, tr) == IF tr THEN v.r ELSE v.c
\* op(X) as columns
OpCols(v, tr, ab) == OpRows(v, ~tr, ab)

\* dense product target value
ProdAt(ar, bc, n, i, j) == Dot(ar[i], bc[j], n)

Mult(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  B == E.B  C == E.C
           n == OpC(A, TrA)
       IN  IF Size(A) = 0 \/ Size(B) = 0 \/ Size(C) = 0 THEN Noop
           ELSE IF ~(C.r = OpR(A, TrA) /\ C.c = OpC(B, TrB) /\ n = OpR(B, TrB)) THEN Refused
           ELSE \E ar \in {OpRows(A, TrA, Has("ABSA"))}, bc \in {OpCols(B, TrB, Has("ABSB"))},
                    c0 \in {Rows(mem[C.b], C)} :
                    /\ Good /\ Frame({C.b})
                    /\ Updated(C, All, LAMBDA i, j :
                          Scaled(E.be, c0[i][j]) + E.al * ProdAt(ar, bc, n, i, j))
                    /\ Step

MultSym(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  B == E.B  C == E.C
           right == Has("RIGHT")
           n == A.r
           trb == Has("TRANSB")
       IN  IF Size(A) = 0 \/ Size(B) = 0 \/ Size(C) = 0 THEN Noop
           ELSE IF ~( /\ A.r = A.c
                      /\ IF right THEN C.r = OpR(B, trb) /\ C.c = n /\ OpC(B, trb) = n
                                  ELSE C.r = n /\ C.c = OpC(B, trb) /\ OpR(B, trb) = n) THEN Refused
           ELSE \E s \in {SymOf(Rows(mem[A.b], A), n, Up)} : \E br \in {OpRows(B, trb, FALSE)} : \E bc \in {OpCols(B, trb, FALSE)} : \E c0 \in {Rows(mem[C.b], C)} :
                    /\ Good /\ Frame({C.b})
                    /\ Updated(C, All, LAMBDA i, j :
                          Scaled(E.be, c0[i][j]) + E.al * (IF right THEN Dot(br[i], s[j], n)
                                                             ELSE Dot(s[i], bc[j], n)))
                    /\ Step

\* the triangular operand as dense rows of op(A)
TriOp(A) == Bind(TriOf(Rows(mem[A.b], A), A.r, A.c, Up, Has("UNIT")), LAMBDA t :
                 IF TrA THEN Transpose(t, A.r, A.c) ELSE t)

TrmShapeOk(A, B) == A.r = A.c /\ (IF Has("RIGHT") THEN B.c = A.r ELSE B.r = A.r)

MultTrm(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  B == E.B  n == A.r
       IN  IF Size(A) = 0 \/ Size(B) = 0 THEN Noop
           ELSE IF ~TrmShapeOk(A, B) THEN Refused
           ELSE \E t \in {TriOp(A)} : \E tc \in {Transpose(t, n, n)} : \E br \in {Rows(mem[B.b], B)} : \E bc \in {Cols(mem[B.b], B)} :
                    /\ Good /\ Frame({B.b})
                    /\ Updated(B, All, LAMBDA i, j :
                          E.al * (IF Has("RIGHT") THEN Dot(br[i], tc[j], n) ELSE Dot(t[i], bc[j], n)))
                    /\ Step

\* all observed values of view v of buffer contents d are ordinary
Sane(d0, v, bound) == \E d \in {d0} : \A i \in Rng(v.r), j \in Rng(v.c) : AbsV(d[Pos(v, i, j)]) <= bound

SolveTrm(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  B == E.B  n == A.r
       IN  IF Size(A) = 0 \/ Size(B) = 0 THEN Noop
           ELSE IF ~TrmShapeOk(A, B) THEN Refused
           ELSE \E t \in {TriOp(A)} : \E tc \in {Transpose(t, n, n)} : \E b0 \in {Rows(mem[B.b], B)} : \E xr \in {Rows(Obs(B.b), B)} : \E xc \in {Cols(Obs(B.b), B)} :
                    /\ Good /\ Frame({B.b})
                    /\ Untouched(B, All)
                    /\ Sane(Obs(B.b), B, 100000)
                    /\ \A i \in Rng(B.r), j \in Rng(B.c) :
                          (IF Has("RIGHT") THEN Dot(xr[i], tc[j], n) ELSE Dot(t[i], xc[j], n))
                            = E.al * b0[i][j]
                    /\ Step

UpdateSym(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  C == E.C
           n == OpC(A, TrA)
       IN  IF Size(A) = 0 \/ Size(C) = 0 THEN Noop
           ELSE IF ~(C.r = C.c /\ C.r = OpR(A, TrA)) THEN Refused
           ELSE \E ar \in {OpRows(A, TrA, FALSE)} : \E c0 \in {Rows(mem[C.b], C)} :
                    /\ Good /\ Frame({C.b})
                    /\ Updated(C, LAMBDA i, j : InTri(Up, i, j), LAMBDA i, j :
                          Scaled(E.be, c0[i][j]) + E.al * Dot(ar[i], ar[j], n))
                    /\ Step

Update2Sym(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  B == E.B  C == E.C
           n == OpC(A, TrA)
       IN  IF Size(A) = 0 \/ Size(B) = 0 \/ Size(C) = 0 THEN Noop
           ELSE IF ~(C.r = C.c /\ C.r = OpR(A, TrA) /\ A.r = B.r /\ A.c = B.c) THEN Refused
           ELSE \E ar \in {OpRows(A, TrA, FALSE)} : \E br \in {OpRows(B, TrA, FALSE)} : \E c0 \in {Rows(mem[C.b], C)} :
                    /\ Good /\ Frame({C.b})
                    /\ Updated(C, LAMBDA i, j : InTri(Up, i, j), LAMBDA i, j :
                          Scaled(E.be, c0[i][j]) + E.al * (Dot(ar[i], br[j], n) + Dot(br[i], ar[j], n)))
                    /\ Step

UpdateTrm(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  B == E.B  C == E.C
           n == OpC(A, TrA)
       IN  IF Size(A) = 0 \/ Size(B) = 0 \/ Size(C) = 0 THEN Noop
           ELSE IF ~(C.r = OpR(A, TrA) /\ C.c = OpC(B, TrB) /\ n = OpR(B, TrB)) THEN Refused
           ELSE \E ar \in {OpRows(A, TrA, FALSE)} : \E bc \in {OpCols(B, TrB, FALSE)} : \E c0 \in {Rows(mem[C.b], C)} :
                    /\ Good /\ Frame({C.b})
                    /\ Updated(C, LAMBDA i, j : InTri(Up, i, j), LAMBDA i, j :
                          Scaled(E.be, c0[i][j]) + E.al * ProdAt(ar, bc, n, i, j))
                    /\ Step

Blas3Next == \/ Mult("mult") \/ MultSym("mult_sym") \/ MultTrm("mult_trm") \/ SolveTrm("solve_trm")
             \/ UpdateSym("update_sym") \/ Update2Sym("update2_sym") \/ UpdateTrm("update_trm")
=============================================================================
