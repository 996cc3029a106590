--------------------------------- MODULE Err ---------------------------------
(* Error discipline.  Which operand shapes conform, for every operation, and *)
(* that calls with others are refused: negative status, the matching error   *)
(* code, nothing changed.  Events marked "probe" are judged by this only;    *)
(* what conforming calls compute is stated by the other modules.             *)
EXTENDS Env

\* operation o, with or without explicit workspace, in ordinary or extended precision
Is(o) == E.op = o \/ E.op = o \o "_w" \/ E.op = "ext_" \o o
In(S) == \E o \in S : Is(o)
Sq(A) == A.r = A.c
VecLen(X, n) == IsVec(X) /\ VLen(X) = n
Side(C) == IF Has("RIGHT") THEN C.c ELSE C.r
PivLen(n) == IF HasKey("P") THEN E.P.n = n ELSE TRUE
Atleast(X, n) == n = 0 \/ (IsVec(X) /\ VLen(X) >= n)
Kind == SubSeq(E.op, 1, 2)                       \* qr, ql, lq, rq
Opt(k, f(_)) == IF HasKey(k) THEN f(E[k]) ELSE TRUE
Wants(flag, k, f(_)) == IF Has(flag) THEN IF HasKey(k) THEN f(E[k]) ELSE FALSE ELSE TRUE

Conforms ==
    CASE In({"mult", "update_trm"}) ->
            /\ E.C.r = OpR(E.A, TrA) /\ E.C.c = OpC(E.B, TrB) /\ OpC(E.A, TrA) = OpR(E.B, TrB)
      [] In({"mult_sym"}) ->
            /\ Sq(E.A) /\ E.C.r = OpR(E.B, TrB) /\ E.C.c = OpC(E.B, TrB) /\ Side(E.C) = E.A.r
      [] In({"mult_trm", "solve_trm"}) -> Sq(E.A) /\ Side(E.B) = E.A.r
      [] In({"update_sym"}) -> Sq(E.C) /\ E.C.r = OpR(E.A, TrA)
      [] In({"update2_sym"}) -> Sq(E.C) /\ E.C.r = OpR(E.A, TrA) /\ E.A.r = E.B.r /\ E.A.c = E.B.c
      [] In({"mvmult"}) -> VecLen(E.X, OpC(E.A, TrA)) /\ VecLen(E.Y, OpR(E.A, TrA))
      [] In({"mvmult_sym", "mvupdate2_sym"}) -> Sq(E.A) /\ VecLen(E.X, E.A.r) /\ VecLen(E.Y, E.A.r)
      [] In({"mvmult_trm", "mvsolve_trm", "mvupdate_sym"}) -> Sq(E.A) /\ VecLen(E.X, E.A.r)
      [] In({"mvupdate", "mvupdate_trm"}) -> VecLen(E.X, E.A.r) /\ VecLen(E.Y, E.A.c)
      [] In({"axpy", "axpby", "swap"}) -> IsVec(E.X) /\ IsVec(E.Y) /\ VLen(E.X) = VLen(E.Y)
      [] In({"copy"}) -> IsVec(E.X) /\ IsVec(E.Y)     \* the shorter one counts
      [] In({"scale"}) -> IsVec(E.X)
      [] In({"mcopy"}) -> IF IsVec(E.D) /\ IsVec(E.A) THEN VLen(E.D) = VLen(E.A)
                          ELSE E.D.r = OpR(E.A, TrA) /\ E.D.c = OpC(E.A, TrA)
      [] In({"mplus"}) -> LET tb == Has("TRANSA") \/ Has("TRANSB")
                          IN  IF Size(E.B) = 1 THEN TRUE
                              ELSE IF IsVec(E.A) /\ IsVec(E.B) THEN VLen(E.A) = VLen(E.B)
                              ELSE E.A.r = OpR(E.B, tb) /\ E.A.c = OpC(E.B, tb)
      [] In({"madd", "mscale"}) -> IF Has("SYMM") /\ NotVec(E.A) THEN Sq(E.A) ELSE TRUE
      \* factorizations
      [] In({"lufactor"}) -> IF HasKey("P") THEN E.P.n >= Min2(E.A.r, E.A.c) ELSE TRUE
      [] In({"luinverse", "ldlfactor", "ldlinverse", "bkfactor", "cholfactor"}) -> Sq(E.A) /\ PivLen(E.A.r)
      [] In({"cholesky", "cholinverse", "inverse_trm"}) -> Sq(E.A)
      [] In({"cholsolve", "cholsolve_f"}) ->   \* as many pivots as the rank
            Sq(E.A) /\ E.B.r = E.A.c /\ (IF HasKey("P") THEN E.P.n <= E.A.r ELSE TRUE)
      [] In({"lusolve", "ldlsolve", "bksolve", "lusolve_f", "ldlsolve_f"}) ->
            Sq(E.A) /\ E.B.r = E.A.c /\ PivLen(E.A.r)
      [] In({"cholupdate"}) -> Sq(E.A) /\ VecLen(E.X, E.A.r)
      [] In({"qrfactor", "qlfactor", "lqfactor", "rqfactor"}) ->
            QShapeOk(Kind, E.A) /\ IsVec(E.T) /\ VLen(E.T) >= QCount(Kind, E.A)
      [] In({"qrmult", "qlmult", "lqmult", "rqmult"}) ->
            QShapeOk(Kind, E.A) /\ Side(E.C) = QOrder(Kind, E.A) /\ VecLen(E.T, QCount(Kind, E.A))
      [] In({"qrbuild", "qlbuild", "lqbuild", "rqbuild"}) ->
            QShapeOk(Kind, E.A) /\ IsVec(E.T) /\ VLen(E.T) >= E.K /\ E.K <= QCount(Kind, E.A)
      [] In({"qrsolve", "lqsolve"}) -> QShapeOk(Kind, E.A) /\ E.B.r = QOrder(Kind, E.A) /\ VecLen(E.T, QCount(Kind, E.A))
      [] In({"qrreflector", "qlreflector", "lqreflector", "rqreflector"}) ->
            QShapeOk(Kind, E.A) /\ E.X.r >= QCount(Kind, E.A) /\ E.X.c >= QCount(Kind, E.A) /\ IsVec(E.T) /\ VLen(E.T) >= QCount(Kind, E.A)
      [] In({"qrtfactor"}) -> E.A.r >= E.A.c /\ E.X.c >= E.A.c
      [] In({"hessreduce"}) -> Sq(E.A) /\ IsVec(E.T) /\ VLen(E.T) >= RCount("hess", E.A)
      [] In({"trdreduce"}) -> Sq(E.A) /\ IsVec(E.T) /\ VLen(E.T) >= RCount("trl", E.A)
      [] In({"bdreduce"}) -> Atleast(E.T, RCount("bdq", E.A)) /\ Atleast(E.S, RCount("bdp", E.A))
      [] In({"hessmult"}) -> Sq(E.A) /\ Side(E.C) = E.A.r /\ IsVec(E.T) /\ VLen(E.T) >= RCount("hess", E.A)
      [] In({"trdmult"}) -> Sq(E.A) /\ Side(E.C) = E.A.r /\ IsVec(E.T) /\ VLen(E.T) >= RCount("trl", E.A)
      [] In({"bdmult"}) -> /\ Has("MULTP") # Has("MULTQ")
                           /\ Side(E.C) = (IF Has("MULTP") THEN E.A.c ELSE E.A.r)
                           /\ IsVec(E.T) /\ VLen(E.T) >= RCount(IF Has("MULTP") THEN "bdp" ELSE "bdq", E.A)
      [] In({"bdbuild"}) -> Has("WANTP") # Has("WANTQ") /\ IsVec(E.T) /\ VLen(E.T) >= RCount(IF Has("WANTP") THEN "bdp" ELSE "bdq", E.A)
      [] In({"trdbuild"}) -> Sq(E.A) /\ IsVec(E.T) /\ VLen(E.T) >= RCount("trl", E.A)
      \* spectra
      [] In({"svd"}) ->
            LET k == Min2(E.A.r, E.A.c)
            IN  /\ IsVec(E.S) /\ VLen(E.S) >= k
                /\ Wants("WANTU", "U", LAMBDA u : u.r = E.A.r /\ (u.c = E.A.r \/ u.c = k))
                /\ Wants("WANTV", "V", LAMBDA v : v.c = E.A.c /\ (v.r = E.A.c \/ v.r = k))
      [] In({"bdsvd"}) -> /\ IsVec(E.D) /\ VecLen(E.E, VLen(E.D) - 1)
                          /\ Wants("WANTU", "U", LAMBDA u : u.c >= VLen(E.D)) /\ Wants("WANTV", "V", LAMBDA v : v.r >= VLen(E.D))
      [] In({"dqds"}) -> IsVec(E.D) /\ (VecLen(E.E, VLen(E.D) - 1) \/ (VLen(E.D) = 1 /\ Size(E.E) = 0))
      [] In({"trdeigen"}) -> /\ IsVec(E.D) /\ VecLen(E.E, VLen(E.D) - 1)
                             /\ Wants("WANTV", "V", LAMBDA v : v.r = VLen(E.D) /\ v.c = VLen(E.D))
      [] In({"eigen_sym"}) -> Sq(E.A) /\ VecLen(E.D, E.A.r)
      [] In({"eigen_sym_selected"}) -> Sq(E.A) /\ (IsVec(E.D) \/ Size(E.D) = 0)  \* too short is found out late
      [] In({"trdbisect"}) -> IsVec(E.Y) /\ IsVec(E.D) /\ (VecLen(E.E, VLen(E.D) - 1) \/ (VLen(E.D) = 1 /\ Size(E.E) = 0))
      [] In({"trdsec_solve"}) -> /\ IsVec(E.D) /\ VecLen(E.Y, VLen(E.D)) /\ VecLen(E.Z, VLen(E.D))
                                 /\ VecLen(E.W, VLen(E.D))  \* deltas
      [] In({"trdsec_solve_vec"}) -> /\ IsVec(E.D) /\ VecLen(E.Y, VLen(E.D)) /\ VecLen(E.Z, VLen(E.D)) /\ VecLen(E.V, VLen(E.D))
                                     /\ E.Q.r = VLen(E.D) /\ E.Q.c = VLen(E.D)
      [] In({"trdsec_eigen"}) -> /\ IsVec(E.V) /\ E.Q.r = VLen(E.V) /\ E.Q.c = VLen(E.V)
                                 /\ Opt("P", LAMBDA p : p.r = VLen(E.V) /\ p.c = VLen(E.V))
      \* elementary transformations
      [] In({"houseapply2x1", "hhouse_apply"}) ->
            /\ IsVec(E.X) /\ IsVec(E.H) /\ VLen(E.W) >= VLen(E.X)
            /\ (IF Has("LEFT") THEN E.A.r ELSE E.A.c) = VLen(E.H) /\ (IF Has("LEFT") THEN E.A.c ELSE E.A.r) = VLen(E.X)
      [] In({"housemult"}) -> Side(E.X) = E.Q.r /\ (IF Has("UNIT") THEN VecLen(E.T, E.Q.c) ELSE TRUE)
      [] In({"mult_diag", "solve_diag"}) -> (IF IsVec(E.A) THEN Size(E.A) = DiagLen(E.D) ELSE FALSE) \/ DiagLen(E.D) = Side(E.A)
      [] In({"mult_rbt"}) -> E.R.r = Side(E.A)
      [] In({"update2_rbt"}) -> Sq(E.A) /\ E.U.r = E.V.r /\ E.U.c = E.V.c /\ E.U.r >= E.A.r
      [] In({"pivot_rows"}) -> E.P.n <= E.A.r
      [] In({"pivot_cols"}) -> E.P.n <= E.A.c
      [] OTHER -> TRUE

\* the matching codes: size mismatch, need vector (an operand is none), invalid parameter
Views == {k \in {"A", "B", "C", "D", "E", "H", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"} \cap DOMAIN E : "r" \in DOMAIN E[k]}
Match == \/ E.err \in {1, 3}
         \/ E.err = 2 /\ \E k \in Views : NotVec(E[k])
AnyEmpty == \E k \in Views : Size(E[k]) = 0
Probe ==
    /\ More /\ E.k = "call" /\ HasKey("probe")
    /\ ~HasKey("crash") /\ ~HasKey("guard")
    /\ IF HasKey("wsz") THEN E.wdirty = 0 /\ E.wover = 0 /\ E.wkeep = 1 ELSE TRUE
    /\ IF Conforms
       THEN IF E.ret < 0 THEN E.err > 0 ELSE TRUE
       ELSE IF AnyEmpty THEN (IF E.ret = 0 THEN E.err = 0 ELSE Bad) /\ Unchanged
       ELSE E.ret < 0 /\ Match /\ Unchanged
    /\ Step
ErrNext == Probe
=============================================================================
