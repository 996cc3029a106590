-------------------------------- MODULE Mat --------------------------------
(* Constant-level mathematics: strided views into flat memory, the dense     *)
(* matrices they denote, and finite sums.  A view is a record                *)
(*   b: buffer name, o: 0-based offset, r: rows, c: columns, s: row stride   *)
(* Element (i,j) (0-based) of view v lives at 1-based position               *)
(*   v.o + j*v.s + i + 1 of the buffer, column-major.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Functions, FiniteSetsExt

SENT == 2147483647                 \* "not representable" mark of the trace encoder
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
AbsV(x) == IF x < 0 THEN -x ELSE x
SignV(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

Rng(n) == 0..(n - 1)
\* Call by value: TLC re-evaluates operator arguments and LET definitions at every use inside
\* an action, a variable bound over a singleton is evaluated once.
Bind(v, F(_)) == CHOOSE r \in {F(x) : x \in {v}} : TRUE
SumF(f) == FoldFunction(+, 0, f)   \* sum of the values of a function
\* sum of a[i]*b[i] over i in 0..n-1
\* beta times old contents; a beta of zero means the old contents are not read
Scaled(be, o) == IF be = 0 THEN 0 ELSE be * o
Dot(a, b, n) == FoldFunction(+, 0, [k \in 0..(n - 1) |-> a[k] * b[k]])

Pos(v, i, j) == v.o + j * v.s + i + 1
Size(v) == v.r * v.c
IsVec(v) == v.r = 1 \/ v.c = 1
VLen(v) == v.r * v.c
VPos(v, i) == v.o + (IF v.r = 1 THEN i * v.s ELSE i) + 1

\* dense image of a view of the buffer contents d:  function 0..r-1 -> 0..c-1 -> value
Rows(d0, v) == Bind(d0, LAMBDA d : TLCEval([i \in Rng(v.r) |-> TLCEval([j \in Rng(v.c) |-> d[Pos(v, i, j)]])]))
Cols(d0, v) == Bind(d0, LAMBDA d : TLCEval([j \in Rng(v.c) |-> TLCEval([i \in Rng(v.r) |-> d[Pos(v, i, j)]])]))
Vec(d0, v)  == Bind(d0, LAMBDA d : TLCEval([i \in Rng(VLen(v)) |-> d[VPos(v, i)]]))

\* the matrix given by an element operator, as function of rows
MkRows(m, n, f(_, _)) == TLCEval([i \in Rng(m) |-> TLCEval([j \in Rng(n) |-> f(i, j)])])
Transpose(a0, m, n) == Bind(a0, LAMBDA a : MkRows(n, m, LAMBDA i, j : a[j][i]))
MatVec(a0, x0, m, n) == Bind(a0, LAMBDA a : Bind(x0, LAMBDA x : TLCEval([i \in Rng(m) |-> Dot(a[i], x, n)])))

\* triangle membership: lo in {"LOWER","UPPER"}
InTri(up, i, j) == IF up THEN i <= j ELSE i >= j

\* the full symmetric matrix represented by the up/low triangle of n x n rows a
SymOf(a0, n, up) == Bind(a0, LAMBDA a : MkRows(n, n, LAMBDA i, j : IF InTri(up, i, j) THEN a[i][j] ELSE a[j][i]))
\* the full triangular matrix represented by a triangle with optional unit diagonal
TriOf(a0, m, n, up, unit) == Bind(a0, LAMBDA a :
    MkRows(m, n, LAMBDA i, j : IF i = j /\ unit THEN 1
                               ELSE IF InTri(up, i, j) THEN a[i][j] ELSE 0))
=============================================================================
