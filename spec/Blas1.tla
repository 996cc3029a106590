-------------------------------- MODULE Blas1 --------------------------------
(* Vector operations and elementwise matrix operations.                      *)
EXTENDS Blas2

SumV(x) == FoldFunction(+, 0, x)
AbsVec(x) == [i \in DOMAIN x |-> AbsV(x[i])]
MaxAbs(x) == FoldFunction(LAMBDA a, b : Max2(AbsV(a), b), 0, x)
MinAbs(x) == FoldFunction(LAMBDA a, b : Min2(AbsV(a), b), SENT, x)
SumSq(x) == FoldFunction(LAMBDA a, b : a * a + b, 0, x)
\* result value v, rounded to vs extra binary digits, is the square root of s
Pow2(n) == 2 ^ n
IsSqrt(v, s, vs) == /\ v >= 0 /\ v < 46000
                    /\ (v - 1) * (v - 1) <= s * Pow2(2 * vs) \/ v = 0
                    /\ s * Pow2(2 * vs) <= (v + 1) * (v + 1)

Value(r) == Good /\ Unchanged /\ E.val = r /\ Step
ValueErr == E.err > 0 /\ E.val = 0 /\ Unchanged /\ Step    \* functions without a status

DotOp(op) ==
    /\ IsCall(op)
    /\ IF NotVec(E.X) \/ NotVec(E.Y) \/ VLen(E.X) # VLen(E.Y) THEN ValueErr
       ELSE \E x \in {XVec(E.X, FALSE)} : \E y \in {XVec(E.Y, FALSE)} : Value(Dot(x, y, VLen(E.X)))
ADot(op) ==
    /\ IsCall(op)
    /\ IF NotVec(E.X) \/ NotVec(E.Y) \/ VLen(E.X) # VLen(E.Y) THEN Bad /\ E.val = E.r0 /\ Unchanged /\ Step
       ELSE \E x \in {XVec(E.X, FALSE)} : \E y \in {XVec(E.Y, FALSE)} :
                Value(E.r0 + E.al * Dot(x, y, VLen(E.X)))
SumOp(op, abs) ==
    /\ IsCall(op)
    /\ IF NotVec(E.X) THEN ValueErr
       ELSE \E x \in {XVec(E.X, abs)} : Value(SumV(x))
AMax(op) ==
    /\ IsCall(op)
    /\ IF NotVec(E.X) \/ Size(E.X) = 0 THEN ValueErr
       ELSE \E x \in {XVec(E.X, FALSE)} : Value(MaxAbs(x))
IAMax(op, ext(_)) ==
    /\ IsCall(op)
    /\ IF NotVec(E.X) \/ Size(E.X) = 0 THEN E.val < 0 /\ E.err > 0 /\ Unchanged /\ Step
       ELSE \E x \in {XVec(E.X, FALSE)} :
            Good /\ Unchanged /\ E.val \in DOMAIN x /\ AbsV(x[E.val]) = ext(x) /\ Step
Nrm2(op) ==
    /\ IsCall(op)
    /\ IF NotVec(E.X) THEN ValueErr
       ELSE \E x \in {XVec(E.X, FALSE)} : Good /\ Unchanged /\ IsSqrt(E.val, SumSq(x), E.vs) /\ Step
\* Y := be*Y + al*X
Axpby(op, be) ==
    /\ IsCall(op)
    /\ IF NotVec(E.X) \/ NotVec(E.Y) \/ VLen(E.X) # VLen(E.Y) THEN Refused
       ELSE \E x \in {XVec(E.X, FALSE)} : \E y0 \in {Vec(mem[E.Y.b], E.Y)} :
            /\ Good /\ Frame({E.Y.b})
            /\ UpdatedV(E.Y, LAMBDA i : Scaled(be, y0[i]) + E.al * x[i])
            /\ Step
CopyOp(op) ==
    /\ IsCall(op)
    /\ IF Size(E.X) = 0 \/ Size(E.Y) = 0 THEN Noop
       ELSE IF NotVec(E.X) \/ NotVec(E.Y) THEN Refused
       ELSE \E x \in {XVec(E.X, FALSE)} :
            /\ Good /\ Frame({E.Y.b})
            /\ UpdatedV(E.Y, LAMBDA i : x[i])
            /\ Step
SwapOp(op) ==
    /\ IsCall(op)
    /\ IF NotVec(E.X) \/ NotVec(E.Y) \/ VLen(E.X) # VLen(E.Y) THEN Refused
       ELSE \E x \in {XVec(E.X, FALSE)} : \E y \in {XVec(E.Y, FALSE)} :
            /\ Good /\ Frame({E.X.b, E.Y.b})
            /\ UpdatedV(E.X, LAMBDA i : y[i]) /\ UpdatedV(E.Y, LAMBDA i : x[i])
            /\ Step
ScaleOp(op) ==
    /\ IsCall(op)
    /\ IF Size(E.X) = 0 THEN Noop ELSE IF NotVec(E.X) THEN Refused
       ELSE \E x \in {XVec(E.X, FALSE)} :
            /\ Good /\ Frame({E.X.b})
            /\ UpdatedV(E.X, LAMBDA i : E.al * x[i])
            /\ Step

\* ---- elementwise -------------------------------------------------------------------------
\* elements selected by the triangle flags; unit excludes the diagonal
Sel(i, j) == /\ Has("UPPER") => i <= j
             /\ Has("LOWER") => i >= j
             /\ (Has("UNIT") /\ (Has("UPPER") \/ Has("LOWER"))) => i # j
SelD(i, j) == (Has("UPPER") => i <= j) /\ (Has("LOWER") => i >= j)

Elementwise(v, in(_, _), f(_)) ==
    \E a0 \in {Rows(mem[v.b], v)} :
        Good /\ Frame({v.b}) /\ Updated(v, in, LAMBDA i, j : f(a0[i][j])) /\ Step

MCopy(op) ==
    /\ IsCall(op)
    /\ LET D == E.D  A == E.A
       IN  IF IsVec(D) /\ IsVec(A)
           THEN IF VLen(D) # VLen(A) THEN Refused
                ELSE \E x \in {Vec(mem[A.b], A)} :
                     Good /\ Frame({D.b}) /\ UpdatedV(D, LAMBDA i : x[i]) /\ Step
           ELSE IF D.r # OpR(A, TrA) \/ D.c # OpC(A, TrA) THEN Refused
           ELSE \E a \in {OpRows(A, TrA, FALSE)} :
                Good /\ Frame({D.b}) /\ Updated(D, All, LAMBDA i, j : a[i][j]) /\ Step
MAdd(op) ==
    /\ IsCall(op)
    /\ IF Has("SYMM") /\ E.A.r # E.A.c THEN Refused
       ELSE Elementwise(E.A, Sel, LAMBDA x : x + E.al)
MScale(op) ==
    /\ IsCall(op)
    /\ IF Has("SYMM") /\ E.A.r # E.A.c THEN Refused
       ELSE Elementwise(E.A, Sel, LAMBDA x : E.al * x)
ScaleTo(op) ==
    /\ IsCall(op)
    /\ Elementwise(E.A, Sel, LAMBDA x : (x * E.to) \div E.from)
MPlus(op) ==
    /\ IsCall(op)
    /\ LET A == E.A  B == E.B  tb == Has("TRANSA") \/ Has("TRANSB")
           f(x) == IF Has("ABSA") THEN AbsV(x) ELSE x
       IN  IF Size(A) = 0 \/ Size(B) = 0 THEN Noop
           ELSE IF Size(B) = 1 /\ Size(A) # 1
           THEN \E k \in {mem[B.b][Pos(B, 0, 0)]} : Elementwise(A, SelD, LAMBDA x : E.al * x + E.be * k)
           ELSE IF IsVec(A) /\ IsVec(B)
           THEN IF VLen(A) # VLen(B) THEN Refused
                ELSE \E x \in {Vec(mem[B.b], B)} : \E y \in {Vec(mem[A.b], A)} :
                     Good /\ Frame({A.b}) /\ UpdatedV(A, LAMBDA i : E.al * y[i] + E.be * x[i]) /\ Step
           ELSE IF A.r # OpR(B, tb) \/ A.c # OpC(B, tb) THEN Refused
           ELSE \E b \in {OpRows(B, tb, FALSE)} : \E a \in {Rows(mem[A.b], A)} :
                /\ Good /\ Frame({A.b})
                /\ Updated(A, SelD, LAMBDA i, j : E.al * f(a[i][j]) + E.be * f(b[i][j]))
                /\ Step
MakeTrm(op) ==
    /\ IsCall(op)
    /\ IF ~Has("UPPER") /\ ~Has("LOWER") THEN Noop
       ELSE Good /\ Frame({E.A.b})
            /\ Updated(E.A, LAMBDA i, j : ~SelD(i, j) \/ (Has("UNIT") /\ i = j),
                            LAMBDA i, j : IF i = j THEN 1 ELSE 0)
            /\ Step
MNorm(op) ==
    /\ IsCall(op)
    /\ LET A == E.A
           one(w) == FoldFunction(Max2, 0, [j \in DOMAIN w |-> SumV(AbsVec(w[j]))])
           flat(a) == [p \in Rng(Size(A)) |-> a[p % A.r][p \div A.r]]
       IN  IF Size(A) = 0 THEN Value(0)
           ELSE \E a \in {Rows(mem[A.b], A)} : \E acols \in {Cols(mem[A.b], A)} : \E x \in {flat(a)} :
                CASE E.norm = "one" -> Value(IF IsVec(A) THEN SumV(AbsVec(x)) ELSE one(acols))
                  [] E.norm = "inf" -> Value(IF IsVec(A) THEN MaxAbs(x) ELSE one(a))
                  [] E.norm = "two" /\ ~IsVec(A) -> ValueErr
                  [] E.norm \in {"frb", "two"} -> Good /\ Unchanged /\ IsSqrt(E.val, SumSq(x), E.vs) /\ Step
Apply(op) ==
    /\ IsCall(op)
    /\ Elementwise(E.A, SelD, LAMBDA x : IF E.fn = 1 THEN 2 * x ELSE x + 3)
Apply2(op) == IsCall(op) /\ Elementwise(E.A, SelD, LAMBDA x : 2 * x + E.al)
Iterate(op) ==
    /\ IsCall(op)
    /\ LET A == E.A
           idx == {p \in Rng(Size(A)) : SelD(p % A.r, p \div A.r)}
       IN  \E d \in {mem[A.b]} : \E n \in {Cardinality(idx)} :
            /\ Unchanged /\ E.err = 0
            /\ IF E.stop > 0 /\ n >= E.stop THEN E.ret < 0 /\ E.cnt = E.stop
               ELSE /\ E.ret = 0 /\ E.cnt = n
                    /\ E.val = FoldFunction(+, 0, [p \in idx |-> d[Pos(A, p % A.r, p \div A.r)]])
            /\ Step
\* the value an element gets from the value function of the driver
ValueAt(i, j) == 100 * i + j + 1
SetValues(op) ==
    /\ IsCall(op)
    /\ IF Has("SYMM")
       THEN IF E.A.r # E.A.c THEN E.ret < 0 /\ Unchanged /\ Step
            ELSE Good /\ Frame({E.A.b})
                 /\ Updated(E.A, All, LAMBDA i, j : IF i = j /\ Has("UNIT") THEN 1
                                                    ELSE IF i >= j THEN ValueAt(i, j) ELSE ValueAt(j, i))
                 /\ Step
       ELSE Good /\ Frame({E.A.b}) /\ Updated(E.A, Sel, ValueAt) /\ Step
\* every selected element receives its own value of the generator 1, 2, 3, ...
SetAll(op) ==
    /\ IsCall(op)
    /\ IF Has("SYMM") /\ E.A.r # E.A.c THEN E.ret < 0 /\ Unchanged /\ Step
       ELSE \E new \in {Rows(Obs(E.A.b), E.A)} :
            LET A == E.A
                sym == Has("SYMM")
                idx == {<<i, j>> \in Rng(A.r) \X Rng(A.c) :
                          IF sym THEN i > j \/ (i = j /\ ~Has("UNIT")) ELSE Sel(i, j)}
            IN  /\ Good /\ Frame({A.b})
                /\ {new[ij[1]][ij[2]] : ij \in idx} = 1..Cardinality(idx)
                /\ sym => \A i \in Rng(A.r), j \in Rng(A.c) :
                             /\ new[i][j] = new[j][i]
                             /\ (i = j /\ Has("UNIT")) => new[i][j] = 1
                /\ Untouched(A, LAMBDA i, j : sym \/ Sel(i, j))
                /\ Step
\* |a - b| <= at + rt*|b| with integer tolerances
Within(op, at, rt) ==
    /\ IsCall(op)
    /\ LET A == E.A  B == E.B
       IN  \E a \in {Rows(mem[A.b], A)} : \E b \in {Rows(mem[B.b], B)} :
           /\ Good /\ Unchanged
           /\ E.val = IF A.r = B.r /\ A.c = B.c
                         /\ \A i \in Rng(A.r), j \in Rng(A.c) : AbsV(a[i][j] - b[i][j]) <= at + rt * AbsV(b[i][j])
                      THEN 1 ELSE 0
           /\ Step

Blas1Next == \/ DotOp("dot") \/ ADot("adot") \/ SumOp("asum", TRUE) \/ AMax("amax")
             \/ IAMax("iamax", MaxAbs) \/ IAMax("iamin", MinAbs) \/ Nrm2("nrm2")
             \/ (IsCall("axpby") /\ Axpby("axpby", E.be)) \/ Axpby("axpy", 1)
             \/ CopyOp("copy") \/ SwapOp("swap") \/ ScaleOp("scale")
             \/ MCopy("mcopy") \/ MAdd("madd") \/ MScale("mscale") \/ ScaleTo("scale_to") \/ MPlus("mplus")
             \/ MakeTrm("make_trm") \/ MNorm("mnorm") \/ Apply("apply") \/ Apply2("apply2")
             \/ Iterate("iterate") \/ SetValues("set_values") \/ SetAll("set_all")
             \/ Within("allclose", 0, 0) \/ (IsCall("intolerance") /\ Within("intolerance", E.at, E.rt))
\* scribbling over the cache buffer of the thread between calls
Poison(op) == IsCall(op) /\ Noop
=============================================================================
