-------------------------------- MODULE Compat --------------------------------
(* The BLAS entry points with the reference argument lists.  Their arguments   *)
(* are addresses: a vector is [b, o, inc], a matrix [b, o, inc] with its       *)
(* leading dimension, and what they compute is stated on the addressed storage. *)
(* A beta (or alpha) of zero means that the operand is not read at all, and a   *)
(* triangle or diagonal that is not referenced may hold anything.               *)
EXTENDS Stream

CpT(o) == o \in {"T", "t", "C", "c"}
CpUp(o) == o \in {"U", "u"}
CpIs(o, u, l) == o \in {u, l}
\* element i of vector x of n elements; reference: counted from the far end if the increment is negative
CpAt(x, i, n) == 1 + x.o + (IF x.inc < 0 THEN (n - 1 - i) * (0 - x.inc) ELSE i * x.inc)
CpV(d, x, n) == [i \in 0..(n - 1) |-> d[CpAt(x, i, n)]]
\* storage of x after the call: f(i) for its elements
CpSet(x, n, f(_)) ==
    \E old \in {mem[x.b]}, new \in {Obs(x.b)}, s \in {AbsV(x.inc)} :
       \A p \in 1..Len(old) :
          \E d \in {p - 1 - x.o} :
             new[p] = IF d < 0 \/ n <= 0 THEN old[p]
                      ELSE IF d % s # 0 \/ (d \div s) >= n THEN old[p]
                      ELSE f(IF x.inc < 0 THEN n - 1 - (d \div s) ELSE d \div s)
\* place of element i, j
CpPos(a, row, i, j) == 1 + a.o + (IF row THEN i * a.inc + j ELSE i + j * a.inc)
\* op(A) of r rows, c columns as function of rows / columns
CpRows(a, row, tr, r, c) == Bind(mem[a.b], LAMBDA d : [i \in 0..(r - 1) |-> [j \in 0..(c - 1) |-> IF tr THEN d[CpPos(a, row, j, i)] ELSE d[CpPos(a, row, i, j)]]])
CpCols(a, row, tr, r, c) == Bind(mem[a.b], LAMBDA d : [j \in 0..(c - 1) |-> [i \in 0..(r - 1) |-> IF tr THEN d[CpPos(a, row, j, i)] ELSE d[CpPos(a, row, i, j)]]])
CpSetM(a, row, r, c, in(_, _), f(_, _)) ==
    \E old \in {mem[a.b]}, new \in {Obs(a.b)} :
       \A p \in 1..Len(old) :
          \E q \in {p - 1 - a.o} : \E u \in {q \div a.inc}, v \in {q % a.inc} :
          \E i \in {IF row THEN u ELSE v}, j \in {IF row THEN v ELSE u} :
             new[p] = IF q < 0 \/ i >= r \/ j >= c THEN old[p]
                      ELSE IF in(i, j) THEN f(i, j) ELSE old[p]
\* symmetric matrix of its triangle, as rows
CpSym(a, row, up, n) == Bind(mem[a.b], LAMBDA d : [i \in 0..(n - 1) |-> [j \in 0..(n - 1) |->
                         IF InTri(up, i, j) THEN d[CpPos(a, row, i, j)] ELSE d[CpPos(a, row, j, i)]]])
\* triangular matrix, op applied, as rows
CpTri(a, row, up, unit, tr, n) == Bind(mem[a.b], LAMBDA d : [i \in 0..(n - 1) |-> [j \in 0..(n - 1) |->
                         IF i = j THEN (IF unit THEN 1 ELSE d[CpPos(a, row, i, j)])
                         ELSE IF tr THEN (IF InTri(up, j, i) THEN d[CpPos(a, row, j, i)] ELSE 0)
                         ELSE IF InTri(up, i, j) THEN d[CpPos(a, row, i, j)] ELSE 0]])
CpBe(o) == IF E.be = 0 THEN 0 ELSE E.be * o
CpAny(i, j) == TRUE

\* ---- vectors
CpSame == Unchanged /\ Step
CpAsum == /\ IsCall("f_asum") /\ Unchanged
          /\ IF E.n <= 0 \/ E.X.inc <= 0 THEN E.val = 0
             ELSE \E x \in {CpV(mem[E.X.b], E.X, E.n)} : E.val = SumV(AbsVec(x))
          /\ Step
CpNrm2 == /\ IsCall("f_nrm2") /\ Unchanged
          /\ IF E.n <= 0 THEN E.val = 0
             ELSE IF E.X.inc < 0 /\ E.val = 0 THEN TRUE              \* older references
             ELSE \E x \in {CpV(mem[E.X.b], E.X, E.n)} : IsSqrt(E.val, SumSq(x), E.vs)
          /\ Step
CpIamax == /\ IsCall("f_iamax") /\ Unchanged
           /\ IF E.n <= 0 \/ E.X.inc <= 0 THEN E.val = 0
              ELSE \E x \in {CpV(mem[E.X.b], E.X, E.n)} :
                   /\ E.val \in 1..E.n
                   /\ AbsV(x[E.val - 1]) = MaxAbs(x)
                   /\ \A i \in 0..(E.val - 2) : AbsV(x[i]) < AbsV(x[E.val - 1])
           /\ Step
CpDot == /\ IsCall("f_dot") /\ Unchanged
         /\ IF E.n <= 0 THEN E.val = 0
            ELSE \E x \in {CpV(mem[E.X.b], E.X, E.n)}, y \in {CpV(mem[E.Y.b], E.Y, E.n)} : E.val = Dot(x, y, E.n)
         /\ Step
CpScal == /\ IsCall("f_scal")
          /\ IF E.n <= 0 \/ E.X.inc <= 0 THEN Unchanged
             ELSE /\ Frame({E.X.b})
                  /\ \E x \in {CpV(mem[E.X.b], E.X, E.n)} : CpSet(E.X, E.n, LAMBDA i : E.al * x[i])
          /\ Step
CpAxpy == /\ IsCall("f_axpy")
          /\ IF E.n <= 0 \/ E.al = 0 THEN Unchanged
             ELSE /\ Frame({E.Y.b})
                  /\ \E x \in {CpV(mem[E.X.b], E.X, E.n)}, y \in {CpV(mem[E.Y.b], E.Y, E.n)} :
                     CpSet(E.Y, E.n, LAMBDA i : y[i] + E.al * x[i])
          /\ Step
CpCopy == /\ IsCall("f_copy") /\ Frame({E.Y.b})
          /\ \E x \in {CpV(mem[E.X.b], E.X, E.n)} : CpSet(E.Y, E.n, LAMBDA i : x[i])
          /\ Step
CpSwap == /\ IsCall("f_swap") /\ Frame({E.X.b, E.Y.b})
          /\ \E x \in {CpV(mem[E.X.b], E.X, E.n)}, y \in {CpV(mem[E.Y.b], E.Y, E.n)} :
             CpSet(E.Y, E.n, LAMBDA i : x[i]) /\ CpSet(E.X, E.n, LAMBDA i : y[i])
          /\ Step
\* integer cosine and sine
CpRot == /\ IsCall("f_rot") /\ Frame({E.X.b, E.Y.b})
         /\ \E x \in {CpV(mem[E.X.b], E.X, E.n)}, y \in {CpV(mem[E.Y.b], E.Y, E.n)} :
            CpSet(E.X, E.n, LAMBDA i : E.c * x[i] + E.s * y[i]) /\ CpSet(E.Y, E.n, LAMBDA i : E.c * y[i] - E.s * x[i])
         /\ Step
\* a, b with integer a^2 + b^2 = h^2; results r exact, c, s, z in units of 2^-16
CpRotg == /\ IsCall("f_rotg") /\ Unchanged
          /\ \E r \in {IF (IF AbsV(E.a) > AbsV(E.b) THEN E.a ELSE E.b) < 0 THEN 0 - E.h ELSE E.h} :
             /\ E.r = r
             /\ IF r = 0 THEN E.rc = 65536 /\ E.rs = 0 /\ E.rz = 0
                ELSE /\ AbsV(E.rc * r - E.a * 65536) <= AbsV(r)
                     /\ AbsV(E.rs * r - E.b * 65536) <= AbsV(r)
                     /\ IF AbsV(E.a) > AbsV(E.b) THEN E.rz = E.rs
                        ELSE IF E.a # 0 THEN AbsV(E.rz * E.a - r * 65536) <= AbsV(E.a)
                        ELSE E.rz = 65536
          /\ Step

\* ---- matrix and vector
CpGemv ==
    /\ IsCall("f_gemv")
    /\ \E tr \in {CpT(E.ta)} : \E ny \in {IF tr THEN E.n ELSE E.m}, nx \in {IF tr THEN E.m ELSE E.n} :
       IF E.m <= 0 \/ E.n <= 0 THEN CpSame
       ELSE /\ Frame({E.Y.b})
            /\ \E y \in {CpV(mem[E.Y.b], E.Y, ny)} :
               IF E.al = 0 THEN CpSet(E.Y, ny, LAMBDA i : CpBe(y[i]))
               ELSE \E x \in {CpV(mem[E.X.b], E.X, nx)}, a \in {CpRows(E.A, FALSE, tr, ny, nx)} :
                    CpSet(E.Y, ny, LAMBDA i : CpBe(y[i]) + E.al * Dot(a[i], x, nx))
            /\ Step
CpSymv ==
    /\ IsCall("f_symv") /\ Frame({E.Y.b})
    /\ \E y \in {CpV(mem[E.Y.b], E.Y, E.n)} :
       IF E.al = 0 THEN CpSet(E.Y, E.n, LAMBDA i : CpBe(y[i]))
       ELSE \E x \in {CpV(mem[E.X.b], E.X, E.n)}, a \in {CpSym(E.A, FALSE, CpUp(E.ul), E.n)} :
            CpSet(E.Y, E.n, LAMBDA i : CpBe(y[i]) + E.al * Dot(a[i], x, E.n))
    /\ Step
CpGer ==
    /\ IsCall("f_ger") /\ Frame({E.A.b})
    /\ IF E.al = 0 THEN Unchanged
       ELSE \E x \in {CpV(mem[E.X.b], E.X, E.m)}, y \in {CpV(mem[E.Y.b], E.Y, E.n)}, a \in {CpRows(E.A, FALSE, FALSE, E.m, E.n)} :
            CpSetM(E.A, FALSE, E.m, E.n, CpAny, LAMBDA i, j : a[i][j] + E.al * x[i] * y[j])
    /\ Step
CpSyr ==
    /\ IsCall("f_syr") /\ Frame({E.A.b})
    /\ IF E.al = 0 THEN Unchanged
       ELSE \E x \in {CpV(mem[E.X.b], E.X, E.n)}, a \in {CpRows(E.A, FALSE, FALSE, E.n, E.n)}, up \in {CpUp(E.ul)} :
            CpSetM(E.A, FALSE, E.n, E.n, LAMBDA i, j : InTri(up, i, j), LAMBDA i, j : a[i][j] + E.al * x[i] * x[j])
    /\ Step
CpSyr2 ==
    /\ IsCall("f_syr2") /\ Frame({E.A.b})
    /\ IF E.al = 0 THEN Unchanged
       ELSE \E x \in {CpV(mem[E.X.b], E.X, E.n)}, y \in {CpV(mem[E.Y.b], E.Y, E.n)}, a \in {CpRows(E.A, FALSE, FALSE, E.n, E.n)}, up \in {CpUp(E.ul)} :
            CpSetM(E.A, FALSE, E.n, E.n, LAMBDA i, j : InTri(up, i, j),
                   LAMBDA i, j : a[i][j] + E.al * (x[i] * y[j] + y[i] * x[j]))
    /\ Step
CpTrmv ==
    /\ IsCall("f_trmv") /\ Frame({E.X.b})
    /\ \E x \in {CpV(mem[E.X.b], E.X, E.n)}, t \in {CpTri(E.A, FALSE, CpUp(E.ul), CpIs(E.dg, "U", "u"), CpT(E.ta), E.n)} :
       CpSet(E.X, E.n, LAMBDA i : Dot(t[i], x, E.n))
    /\ Step
CpTrsv ==
    /\ IsCall("f_trsv") /\ Frame({E.X.b})
    /\ \E x \in {CpV(mem[E.X.b], E.X, E.n)}, z \in {CpV(Obs(E.X.b), E.X, E.n)},
          t \in {CpTri(E.A, FALSE, CpUp(E.ul), CpIs(E.dg, "U", "u"), CpT(E.ta), E.n)} :
       /\ \A i \in 0..(E.n - 1) : AbsV(z[i]) <= 100000
       /\ \A i \in 0..(E.n - 1) : Dot(t[i], z, E.n) = x[i]
       /\ CpSet(E.X, E.n, LAMBDA i : z[i])
    /\ Step

\* ---- matrices; row: rows are contiguous
CpGemm(op, row) ==
    /\ IsCall(op) /\ Frame({E.C.b})
    /\ \E c \in {CpRows(E.C, row, FALSE, E.m, E.n)} :
       IF E.al = 0 \/ E.kk = 0 THEN CpSetM(E.C, row, E.m, E.n, CpAny, LAMBDA i, j : CpBe(c[i][j]))
       ELSE \E a \in {CpRows(E.A, row, CpT(E.ta), E.m, E.kk)}, b \in {CpCols(E.B, row, CpT(E.tb), E.kk, E.n)} :
            CpSetM(E.C, row, E.m, E.n, CpAny, LAMBDA i, j : CpBe(c[i][j]) + E.al * Dot(a[i], b[j], E.kk))
    /\ Step
CpSymm(op, row) ==
    /\ IsCall(op) /\ Frame({E.C.b})
    /\ \E c \in {CpRows(E.C, row, FALSE, E.m, E.n)}, right \in {CpIs(E.sd, "R", "r")} :
       IF E.al = 0 THEN CpSetM(E.C, row, E.m, E.n, CpAny, LAMBDA i, j : CpBe(c[i][j]))
       ELSE \E a \in {CpSym(E.A, row, CpUp(E.ul), IF right THEN E.n ELSE E.m)} :
            IF right
            THEN \E b \in {CpRows(E.B, row, FALSE, E.m, E.n)} :
                 CpSetM(E.C, row, E.m, E.n, CpAny, LAMBDA i, j : CpBe(c[i][j]) + E.al * Dot(b[i], a[j], E.n))
            ELSE \E b \in {CpCols(E.B, row, FALSE, E.m, E.n)} :
                 CpSetM(E.C, row, E.m, E.n, CpAny, LAMBDA i, j : CpBe(c[i][j]) + E.al * Dot(a[i], b[j], E.m))
    /\ Step
CpSyrk ==
    /\ IsCall("f_syrk") /\ Frame({E.C.b})
    /\ \E c \in {CpRows(E.C, FALSE, FALSE, E.n, E.n)}, up \in {CpUp(E.ul)} :
       IF E.al = 0 \/ E.kk = 0 THEN CpSetM(E.C, FALSE, E.n, E.n, LAMBDA i, j : InTri(up, i, j), LAMBDA i, j : CpBe(c[i][j]))
       ELSE \E a \in {CpRows(E.A, FALSE, CpT(E.ta), E.n, E.kk)} :
            CpSetM(E.C, FALSE, E.n, E.n, LAMBDA i, j : InTri(up, i, j), LAMBDA i, j : CpBe(c[i][j]) + E.al * Dot(a[i], a[j], E.kk))
    /\ Step
CpSyr2k ==
    /\ IsCall("f_syr2k") /\ Frame({E.C.b})
    /\ \E c \in {CpRows(E.C, FALSE, FALSE, E.n, E.n)}, up \in {CpUp(E.ul)} :
       IF E.al = 0 \/ E.kk = 0 THEN CpSetM(E.C, FALSE, E.n, E.n, LAMBDA i, j : InTri(up, i, j), LAMBDA i, j : CpBe(c[i][j]))
       ELSE \E a \in {CpRows(E.A, FALSE, CpT(E.ta), E.n, E.kk)}, b \in {CpRows(E.B, FALSE, CpT(E.ta), E.n, E.kk)} :
            CpSetM(E.C, FALSE, E.n, E.n, LAMBDA i, j : InTri(up, i, j),
                   LAMBDA i, j : CpBe(c[i][j]) + E.al * (Dot(a[i], b[j], E.kk) + Dot(b[i], a[j], E.kk)))
    /\ Step
CpTrmm(op, row) ==
    /\ IsCall(op) /\ Frame({E.B.b})
    /\ \E right \in {CpIs(E.sd, "R", "r")} :
       IF E.al = 0 THEN CpSetM(E.B, row, E.m, E.n, CpAny, LAMBDA i, j : 0)
       ELSE \E n \in {IF right THEN E.n ELSE E.m} :
            \E t \in {CpTri(E.A, row, CpUp(E.ul), CpIs(E.dg, "U", "u"), CpT(E.ta), n)} :
            IF right
            THEN \E tc \in {Transpose(t, n, n)}, b \in {CpRows(E.B, row, FALSE, E.m, E.n)} :
                 CpSetM(E.B, row, E.m, E.n, CpAny, LAMBDA i, j : E.al * Dot(b[i], tc[j], n))
            ELSE \E b \in {CpCols(E.B, row, FALSE, E.m, E.n)} :
                 CpSetM(E.B, row, E.m, E.n, CpAny, LAMBDA i, j : E.al * Dot(t[i], b[j], n))
    /\ Step
CpTrsm(op, row) ==
    /\ IsCall(op) /\ Frame({E.B.b})
    /\ \E right \in {CpIs(E.sd, "R", "r")}, d \in {Obs(E.B.b)} :
       IF E.al = 0 THEN CpSetM(E.B, row, E.m, E.n, CpAny, LAMBDA i, j : 0)
       ELSE /\ CpSetM(E.B, row, E.m, E.n, CpAny, LAMBDA i, j : d[CpPos(E.B, row, i, j)])
            /\ \A i \in 0..(E.m - 1), j \in 0..(E.n - 1) : AbsV(d[CpPos(E.B, row, i, j)]) <= 100000
            /\ \E n \in {IF right THEN E.n ELSE E.m}, b \in {CpRows(E.B, row, FALSE, E.m, E.n)} :
               \E t \in {CpTri(E.A, row, CpUp(E.ul), CpIs(E.dg, "U", "u"), CpT(E.ta), n)} :
               IF right
               THEN \E tc \in {Transpose(t, n, n)}, x \in {[i \in 0..(E.m - 1) |-> [j \in 0..(E.n - 1) |-> d[CpPos(E.B, row, i, j)]]]} :
                    \A i \in 0..(E.m - 1), j \in 0..(E.n - 1) : Dot(x[i], tc[j], n) = E.al * b[i][j]
               ELSE \E x \in {[j \in 0..(E.n - 1) |-> [i \in 0..(E.m - 1) |-> d[CpPos(E.B, row, i, j)]]]} :
                    \A i \in 0..(E.m - 1), j \in 0..(E.n - 1) : Dot(t[i], x[j], n) = E.al * b[i][j]
    /\ Step

CompatNext ==
    \/ CpAsum \/ CpNrm2 \/ CpIamax \/ CpDot \/ CpScal \/ CpAxpy \/ CpCopy \/ CpSwap \/ CpRot \/ CpRotg
    \/ CpGemv \/ CpSymv \/ CpGer \/ CpSyr \/ CpSyr2 \/ CpTrmv \/ CpTrsv
    \/ CpGemm("f_gemm", FALSE) \/ CpGemm("c_gemm", FALSE) \/ CpGemm("c_gemm_row", TRUE)
    \/ CpSymm("f_symm", FALSE) \/ CpSymm("c_symm", FALSE) \/ CpSymm("c_symm_row", TRUE)
    \/ CpSyrk \/ CpSyr2k
    \/ CpTrmm("f_trmm", FALSE) \/ CpTrmm("c_trmm", FALSE) \/ CpTrmm("c_trmm_row", TRUE)
    \/ CpTrsm("f_trsm", FALSE) \/ CpTrsm("c_trsm", FALSE) \/ CpTrsm("c_trsm_row", TRUE)
=============================================================================
