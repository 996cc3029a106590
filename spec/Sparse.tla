------------------------------- MODULE Sparse --------------------------------
(* Sparse matrices.  Slot Xk is <<there, kind, rows, columns, entries, room,  *)
(* 9 line starts, 64 x (index, column, value)>>; kinds 0 compressed columns,  *)
(* 1 compressed rows, 2 list of coordinates (index is the row, no lines).     *)
EXTENDS Cbuf

SpThere(h) == h[1] = 1
SpNone == [i \in 1..207 |-> 0]
\* entry p (from 0) and start of line l
SpE(h, p, f) == h[16 + 3 * p + f]
SpL(h, l) == h[7 + l]
SpLines(h) == IF h[2] = 1 THEN h[3] ELSE h[4]
\* the matrix represented: positions and values
SpEnts(h) == IF h[2] = 2 THEN {<<SpE(h, p, 0), SpE(h, p, 1), SpE(h, p, 2)>> : p \in Rng(h[5])}
             ELSE UNION {{IF h[2] = 1 THEN <<l, SpE(h, p, 0), SpE(h, p, 2)>> ELSE <<SpE(h, p, 0), l, SpE(h, p, 2)>>
                          : p \in SpL(h, l)..(SpL(h, l + 1) - 1)} : l \in Rng(SpLines(h))}
SpRows0(S, m, n) == [i \in Rng(m) |-> TLCEval([j \in Rng(n) |->
                        LET T == {e \in S : e[1] = i /\ e[2] = j} IN IF T = {} THEN 0 ELSE (CHOOSE e \in T : TRUE)[3]])]
\* its dense image
SpRows(h0) == Bind(h0, LAMBDA h : Bind(SpEnts(h), LAMBDA S : TLCEval(SpRows0(S, h[3], h[4]))))
\* what always holds of the form it is stored in
SpWell(h) ==
    /\ h[5] >= 0 /\ h[5] <= h[6] /\ h[3] > 0 /\ h[4] > 0
    /\ IF h[2] = 2 THEN TRUE
       ELSE /\ SpL(h, 0) = 0 /\ SpL(h, SpLines(h)) = h[5]
            /\ \A l \in Rng(SpLines(h)) : SpL(h, l) <= SpL(h, l + 1)
            /\ \A l \in Rng(SpLines(h)) : \A p \in SpL(h, l)..(SpL(h, l + 1) - 2) : SpE(h, p, 0) < SpE(h, p + 1, 0)
    /\ \A e \in SpEnts(h) : e[1] \in Rng(h[3]) /\ e[2] \in Rng(h[4]) /\ AbsV(e[3]) < 1000000
    /\ Cardinality(SpEnts(h)) = h[5]
SpIs(h, kind, m, n, S) == SpThere(h) /\ h[2] = kind /\ h[3] = m /\ h[4] = n /\ SpWell(h) /\ SpEnts(h) = S
SpRef(x) == x = E.x
SpNot == E.ret < 0 /\ Unchanged /\ Step
\* a transposed set of entries
SpT(S) == {<<e[2], e[1], e[3]>> : e \in S}

SpBegin == IsCall("sp_begin") /\ Frame({"X0", "X1", "X2", "X3", "X4", "X5", "X6", "X7"}) /\ (\A b \in DOMAIN E.out : E.out[b] = SpNone)
           /\ Step
\* made: without entries, with room for as many as asked for
SpNew(op) ==
    /\ IsCall(op) /\ Frame({E.x}) /\ E.ret = 0 /\ ~SpThere(mem[E.x])
    /\ \E h \in {Obs(E.x)} : IF E.r = 0 \/ E.c = 0 THEN SpThere(h) /\ h[3] = 0 /\ h[4] = 0 /\ h[5] = 0
                             ELSE SpIs(h, E.kind, E.r, E.c, {}) /\ h[6] = E.n
    /\ Step
SpMake == IsCall("sp_make") /\ E.more < 0 /\ SpNot
\* only lists of coordinates grow
SpAppend ==
    /\ IsCall("sp_append")
    /\ \E o \in {mem[E.x]} : IF o[2] # 2 THEN SpNot
       ELSE /\ E.ret = 0 /\ Frame({E.x})
            /\ \E h \in {Obs(E.x)} : SpIs(h, 2, o[3], o[4], SpEnts(o) \cup {<<E.i, E.j, E.v>>}) /\ h[6] >= o[6]
            /\ Step
SpResize ==
    /\ IsCall("sp_resize")
    /\ \E o \in {mem[E.x]} : IF o[2] # 2 \/ E.n < o[5] THEN SpNot
       ELSE /\ E.ret = 0 /\ Frame({E.x})
            /\ \E h \in {Obs(E.x)} : SpIs(h, 2, o[3], o[4], SpEnts(o)) /\ h[6] = E.n
            /\ Step
SpCopy == /\ IsCall("sp_copy") /\ E.ret = 0 /\ Frame({E.y})
          /\ \E o \in {mem[E.x]} : SpIs(Obs(E.y), o[2], o[3], o[4], SpEnts(o))
          /\ Step
\* into a matrix that is there: not if there is no room, surely if it was made for that
SpCopyTo ==
    /\ IsCall("sp_copy_to")
    /\ \E o \in {mem[E.x]}, h \in {mem[E.y]} :
        IF E.ret = 0 THEN Frame({E.y}) /\ SpIs(Obs(E.y), o[2], o[3], o[4], SpEnts(o))
        ELSE E.ret < 0 /\ Unchanged /\ ~(h[2] = o[2] /\ h[3] = o[3] /\ h[4] = o[4] /\ h[6] >= o[5])
    /\ Step
SpConvert ==
    /\ IsCall("sp_convert")
    /\ IF E.kind = 2 THEN SpNot
       ELSE /\ E.ret = 0 /\ Frame({E.y})
            /\ \E o \in {mem[E.x]} : SpIs(Obs(E.y), E.kind, o[3], o[4], SpEnts(o))
            /\ Step
SpConvertTo ==
    /\ IsCall("sp_convert_to")
    /\ IF E.kind = 2 THEN SpNot
       ELSE /\ \E o \in {mem[E.x]}, h \in {mem[E.y]} :
                IF E.ret = 0 THEN Frame({E.y}) /\ SpIs(Obs(E.y), E.kind, o[3], o[4], SpEnts(o))
                ELSE E.ret < 0 /\ Unchanged /\ ~(h[2] = E.kind /\ h[3] = o[3] /\ h[4] = o[4] /\ h[6] = o[5])
            /\ Step
SpTranspose ==
    /\ IsCall("sp_transpose")
    /\ \E o \in {mem[E.x]} :
        IF o[2] = 2 THEN SpNot
        ELSE E.ret = 0 /\ Frame({E.y}) /\ SpIs(Obs(E.y), o[2], o[4], o[3], SpT(SpEnts(o))) /\ Step
SpTransposeTo ==
    /\ IsCall("sp_transpose_to")
    /\ \E o \in {mem[E.x]}, h \in {mem[E.y]} :
        IF o[2] = 2 THEN SpNot
        ELSE IF E.ret = 0 THEN Frame({E.y}) /\ SpIs(Obs(E.y), o[2], o[4], o[3], SpT(SpEnts(o))) /\ Step
        ELSE SpNot /\ ~(h[2] = o[2] /\ h[3] = o[4] /\ h[4] = o[3] /\ h[6] = o[5])
SpSort ==
    /\ IsCall("sp_sort")
    /\ \E o \in {mem[E.x]} : IF o[2] = 2 THEN SpNot
       ELSE E.ret = 0 /\ Frame({E.x}) /\ SpIs(Obs(E.x), o[2], o[3], o[4], SpEnts(o)) /\ Step
\* coordinates by columns (1) or by rows
SpBefore(h, p, q) == LET a == <<SpE(h, p, 0), SpE(h, p, 1)>>  b == <<SpE(h, q, 0), SpE(h, q, 1)>>
                     IN  IF E.order = 1 THEN a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]) ELSE a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
SpSortTo ==
    /\ IsCall("sp_sort_to") /\ E.ret = 0 /\ Frame({E.x})
    /\ \E o \in {mem[E.x]}, h \in {Obs(E.x)} :
        /\ SpIs(h, o[2], o[3], o[4], SpEnts(o)) /\ h[6] = o[6]
        /\ IF o[2] = 2 THEN \A p \in 0..(o[5] - 2) : SpBefore(h, p, p + 1) ELSE TRUE
    /\ Step
SpDense ==
    /\ IsCall("sp_dense")
    /\ \E o \in {mem[E.x]} : IF E.D.r # o[3] \/ E.D.c # o[4] THEN Refused
       ELSE \E a \in {SpRows(o)} : Good /\ Frame({E.D.b}) /\ Updated(E.D, All, LAMBDA i, j : a[i][j]) /\ Step
\* all positions of a diagonal of a square matrix have entries
SpDiag ==
    /\ IsCall("sp_diag") /\ Unchanged
    /\ \E o \in {mem[E.x]} : \E S \in {SpEnts(o)} :
        E.ret = (IF o[3] = o[4] /\ AbsV(E.d) <= o[3]
                    /\ \A i \in Rng(o[3]) : IF i + E.d \in Rng(o[3]) THEN \E e \in S : e[1] = i /\ e[2] = i + E.d ELSE TRUE
                 THEN 1 ELSE 0)
    /\ Step
SpAt ==
    /\ IsCall("sp_at") /\ Unchanged
    /\ \E o \in {mem[E.x]} : \E T \in {{e \in SpEnts(o) : IF o[2] = 1 THEN e[1] = E.l ELSE e[2] = E.l}} :
        \E F \in {{e \in T : IF o[2] = 1 THEN e[2] = E.ix ELSE e[1] = E.ix}} :
        /\ E.len = Cardinality(T) /\ E.size = o[3] * o[4] /\ E.lines = SpLines(o) /\ E.vec = 1
        /\ IF F = {} THEN E.found = 0 ELSE E.found = 1 /\ E.same = 1 /\ E.v = (CHOOSE e \in F : TRUE)[3]
    /\ Step
SpFree == IsCall("sp_free") /\ Frame({E.x}) /\ Obs(E.x) = SpNone /\ Step
SpLive == IsCall("sp_live") /\ Unchanged /\ E.live = 0 /\ Step

\* products with vectors and solving
SpOpRows(a, m, n, tr) == IF tr THEN Transpose(a, m, n) ELSE a
SpMVMult ==
    /\ IsCall("sp_mvmult")
    /\ \E o \in {mem[E.x]} :
        \E m \in {IF TrA THEN o[4] ELSE o[3]}, n \in {IF TrA THEN o[3] ELSE o[4]} :
        IF o[2] = 2 \/ VLen(E.Y) # m \/ VLen(E.X) # n THEN Refused
        ELSE \E a \in {SpOpRows(SpRows(o), o[3], o[4], TrA)}, x \in {Vec(mem[E.X.b], E.X)}, y \in {Vec(mem[E.Y.b], E.Y)} :
             /\ Good /\ Frame({E.Y.b})
             /\ UpdatedV(E.Y, LAMBDA i : (IF E.be = 0 THEN 0 ELSE E.be * y[i]) + E.al * Dot(a[i], x, n))
             /\ Step
SpMVMultSym ==
    /\ IsCall("sp_mvmult_sym")
    /\ \E o \in {mem[E.x]} :
        IF o[2] = 2 \/ o[3] # o[4] \/ VLen(E.Y) # o[3] \/ VLen(E.X) # o[3] THEN Refused
        ELSE \E a \in {SymOf(SpRows(o), o[3], Up)}, x \in {Vec(mem[E.X.b], E.X)}, y \in {Vec(mem[E.Y.b], E.Y)} :
             /\ Good /\ Frame({E.Y.b})
             /\ UpdatedV(E.Y, LAMBDA i : (IF E.be = 0 THEN 0 ELSE E.be * y[i]) + E.al * Dot(a[i], x, o[3]))
             /\ Step
SpTri(o) == SpOpRows(TriOf(SpRows(o), o[3], o[3], Up, Has("UNIT")), o[3], o[3], TrA)
SpMVMultTrm ==
    /\ IsCall("sp_mvmult_trm")
    /\ \E o \in {mem[E.x]} :
        IF o[2] = 2 \/ o[3] # o[4] \/ VLen(E.X) # o[3] THEN Refused
        ELSE \E a \in {SpTri(o)}, x \in {Vec(mem[E.X.b], E.X)} :
             Good /\ Frame({E.X.b}) /\ UpdatedV(E.X, LAMBDA i : E.al * Dot(a[i], x, o[3])) /\ Step
SpMVSolveTrm ==
    /\ IsCall("sp_mvsolve_trm")
    /\ \E o \in {mem[E.x]} :
        IF o[2] = 2 \/ o[3] # o[4] \/ VLen(E.X) # o[3] THEN Refused
        ELSE \E a \in {SpTri(o)}, b \in {Vec(mem[E.X.b], E.X)}, x \in {Vec(Obs(E.X.b), E.X)} :
             /\ Good /\ Frame({E.X.b})
             /\ \A i \in Rng(o[3]) : AbsV(x[i]) <= 100000
             /\ UpdatedV(E.X, LAMBDA i : x[i])
             /\ \A i \in Rng(o[3]) : Dot(a[i], x, o[3]) = E.al * b[i]
             /\ Step
\* sums and products: what is represented is that of the dense ones
TrX == Has("TRANSA")
TrY == Has("TRANSB")
SpM(o, tr) == IF tr THEN o[4] ELSE o[3]
SpN(o, tr) == IF tr THEN o[3] ELSE o[4]
SpSumIs(h, o, p) == \E a \in {SpOpRows(SpRows(o), o[3], o[4], TrX)}, b \in {SpOpRows(SpRows(p), p[3], p[4], TrY)}, r \in {SpRows(h)} :
    \A i \in Rng(h[3]), j \in Rng(h[4]) : r[i][j] = E.al * a[i][j] + E.be * b[i][j]
SpProdIs(h, o, p) == \E a \in {SpOpRows(SpRows(o), o[3], o[4], TrX)}, b \in {SpOpRows(SpRows(p), p[3], p[4], ~TrY)}, r \in {SpRows(h)} :
    \A i \in Rng(h[3]), j \in Rng(h[4]) : r[i][j] = E.al * Dot(a[i], b[j], SpN(o, TrX))
SpShape(h, kind, m, n) == SpThere(h) /\ h[2] = kind /\ h[3] = m /\ h[4] = n /\ SpWell(h)
SpAdds(o, p) == o[2] # 2 /\ o[2] = p[2] /\ SpM(o, TrX) = SpM(p, TrY) /\ SpN(o, TrX) = SpN(p, TrY)
SpMults(o, p) == o[2] # 2 /\ o[2] = p[2] /\ SpN(o, TrX) = SpM(p, TrY)
SpAdd ==
    /\ IsCall("sp_add")
    /\ \E o \in {mem[E.x]}, p \in {mem[E.y]} :
        IF ~SpAdds(o, p) THEN Refused
        ELSE Good /\ Frame({E.z}) /\ \E h \in {Obs(E.z)} : SpShape(h, o[2], SpM(o, TrX), SpN(o, TrX)) /\ SpSumIs(h, o, p) /\ Step
SpMult ==
    /\ IsCall("sp_mult")
    /\ \E o \in {mem[E.x]}, p \in {mem[E.y]} :
        IF ~SpMults(o, p) THEN Refused
        ELSE Good /\ Frame({E.z}) /\ \E h \in {Obs(E.z)} : SpShape(h, o[2], SpM(o, TrX), SpN(p, TrY)) /\ SpProdIs(h, o, p) /\ Step
\* into a matrix there, with workspace: refused when that is the wrong one, or it or the workspace is too small
SpInto(op, fits(_, _), is(_, _, _), n(_, _), room(_, _)) ==
    /\ IsCall(op)
    /\ \E o \in {mem[E.x]}, p \in {mem[E.y]}, g \in {mem[E.z]} :
        IF E.ret = 0
        THEN /\ Good /\ Frame({E.z}) /\ fits(o, p) /\ E.over = 0 /\ E.used = 0 /\ E.less = 0
             /\ \E h \in {Obs(E.z)} : SpShape(h, o[2], SpM(o, TrX), n(o, p)) /\ h[6] = g[6] /\ g[2] = o[2] /\ g[3] = h[3] /\ g[4] = h[4] /\ is(h, o, p)
             /\ Step
        ELSE /\ IF HasKey("over") THEN E.over = 0 /\ E.used = 0 ELSE TRUE
             /\ ~(fits(o, p) /\ g[2] = o[2] /\ g[3] = SpM(o, TrX) /\ g[4] = n(o, p) /\ g[6] >= room(o, p) /\ E.less = 0)
             /\ Refused
SpAddTo == SpInto("sp_addto", SpAdds, SpSumIs, LAMBDA o, p : SpN(o, TrX), LAMBDA o, p : o[5] + p[5])
SpMultTo == SpInto("sp_multto", SpMults, SpProdIs, LAMBDA o, p : SpN(p, TrY), LAMBDA o, p : SpM(o, TrX) * SpN(p, TrY))

SparseNext == \/ SpBegin \/ SpNew("sp_new") \/ SpNew("sp_init") \/ (IF More /\ HasKey("more") THEN E.more >= 0 /\ SpNew("sp_make") ELSE FALSE) \/ SpMake
              \/ SpAppend \/ SpResize \/ SpCopy \/ SpCopyTo \/ SpConvert \/ SpConvertTo \/ SpTranspose \/ SpTransposeTo \/ SpSort \/ SpSortTo
              \/ SpDense \/ SpDiag \/ SpAt \/ SpFree \/ SpLive
              \/ SpMVMult \/ SpMVMultSym \/ SpMVMultTrm \/ SpMVSolveTrm \/ SpAdd \/ SpMult \/ SpAddTo \/ SpMultTo
=============================================================================
