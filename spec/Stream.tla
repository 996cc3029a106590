-------------------------------- MODULE Stream --------------------------------
(* Streams of characters: JSON tokens, matrices as JSON, Matrix Market files. *)
(* A stream is a sequence of character codes; what it denotes is defined by  *)
(* the grammars here, and readers and writers are judged by that.            *)
EXTENDS Iter

\* ---- characters ------------------------------------------------------------
StWs == {9, 10, 13, 32}
StDigit == 48..57
StEnds == StWs \cup {44, 93, 125}
StPunct == {123, 125, 91, 93, 58, 44}
StHex(c) == IF c \in StDigit THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
StBytes == SubSeq(mem[E.x], 1, E.n)
\* first position from p on whose character is outside (inside) S
RECURSIVE StPast(_, _, _), StUpto(_, _, _)
StPast(b, p, S) == IF p > Len(b) THEN p ELSE IF b[p] \in S THEN StPast(b, p + 1, S) ELSE p
StUpto(b, p, S) == IF p > Len(b) THEN p ELSE IF b[p] \in S THEN p ELSE StUpto(b, p + 1, S)
StLower(c) == IF c \in 65..90 THEN c + 32 ELSE c

\* ---- numbers ---------------------------------------------------------------
\* state of the recognizer: 0 start 1 sign 2 zero 3 int 4 point 5 frac 6 e 7 esign 8 exp 9 no number
StNum1(s, c) ==
    IF c \in StDigit THEN IF s \in {0, 1} THEN IF c = 48 THEN 2 ELSE 3
                          ELSE IF s = 3 THEN 3 ELSE IF s \in {4, 5} THEN 5 ELSE IF s \in {6, 7, 8} THEN 8 ELSE 9
    ELSE IF c = 45 THEN IF s = 0 THEN 1 ELSE IF s = 6 THEN 7 ELSE 9
    ELSE IF c = 43 THEN IF s = 6 THEN 7 ELSE 9
    ELSE IF c = 46 THEN IF s \in {2, 3} THEN 4 ELSE 9
    ELSE IF c \in {69, 101} THEN IF s \in {2, 3, 5} THEN 6 ELSE 9
    ELSE 9
StNumEnd(t) == FoldLeft(StNum1, 0, t)
StIsNum(t) == StNumEnd(t) \in {2, 3, 5, 8}
StIsInt(t) == StNumEnd(t) \in {2, 3}
\* value of number t: mantissa, exponent of ten; <<sign, mantissa, exponent, part, exponent sign, exponent digits>>
StVal1(v, c) ==
    IF c = 45 THEN IF v[4] = 2 THEN [v EXCEPT ![5] = -1] ELSE [v EXCEPT ![1] = -1]
    ELSE IF c = 43 THEN v
    ELSE IF c = 46 THEN [v EXCEPT ![4] = 1]
    ELSE IF c \in {69, 101} THEN [v EXCEPT ![4] = 2]
    ELSE IF v[4] = 2 THEN [v EXCEPT ![6] = IF @ > 999 THEN @ ELSE 10 * @ + c - 48]
    ELSE IF v[2] > 99999999 THEN [v EXCEPT ![3] = IF v[4] = 1 THEN @ ELSE @ + 1]
    ELSE [v EXCEPT ![2] = 10 * @ + c - 48, ![3] = IF v[4] = 1 THEN @ - 1 ELSE @]
StVal(t) == FoldLeft(StVal1, <<1, 0, 0, 0, 1, 0>>, t)
StInt(t) == Bind(StVal(t), LAMBDA v : v[1] * v[2])
StSmall(t) == StIsInt(t) /\ Len(t) <= 8
\* does element p (Fix.tla) hold the value of t?  Numbers out of range of the fixed point are not judged
StHolds(p, t) ==
    Bind(StVal(t), LAMBDA v :
        \E x \in {v[3] + v[5] * v[6]} :
        IF v[2] = 0 THEN p = FZero
        ELSE IF v[2] >= 1000000 \/ x < -4 \/ x > 4 THEN TRUE
        ELSE IF x > 0 THEN IF v[2] * 10 ^ x >= 1000000 THEN TRUE ELSE p = <<v[1] * v[2] * 10 ^ x * ONEH, 0>>
        ELSE \E q \in {10 ^ (-x)} :
             IF (v[2] * ONEH) % q = 0 THEN p = <<v[1] * ((v[2] * ONEH) \div q), 0>>
             ELSE AbsV(p[1] - v[1] * ((v[2] * ONEH) \div q)) <= 1)

\* ---- JSON tokens -----------------------------------------------------------
\* punctuation as itself, 1 string 3 number 4 true 5 false 6 null 7 malformed 9 nothing more 10 not specified
Tk(t, s, q) == [t |-> t, s |-> s, q |-> q]
RECURSIVE StStr(_, _, _)
StStr(b, p, s) ==
    IF p > Len(b) THEN Tk(7, s, p)
    ELSE IF b[p] = 34 THEN Tk(1, s, p + 1)
    ELSE IF b[p] < 32 THEN Tk(7, s, p)
    ELSE IF b[p] # 92 THEN StStr(b, p + 1, Append(s, b[p]))
    ELSE IF p = Len(b) THEN Tk(7, s, p)
    ELSE Bind(b[p + 1], LAMBDA c :
         IF c \in {34, 47, 92} THEN StStr(b, p + 2, Append(s, c))
         ELSE IF c = 98 THEN StStr(b, p + 2, Append(s, 8))
         ELSE IF c = 102 THEN StStr(b, p + 2, Append(s, 12))
         ELSE IF c = 110 THEN StStr(b, p + 2, Append(s, 10))
         ELSE IF c = 114 THEN StStr(b, p + 2, Append(s, 13))
         ELSE IF c = 116 THEN StStr(b, p + 2, Append(s, 9))
         ELSE IF c # 117 THEN Tk(7, s, p)
         ELSE IF p + 5 > Len(b) THEN Tk(7, s, p)
         ELSE Bind([i \in 1..4 |-> StHex(b[p + 1 + i])], LAMBDA h :
              IF \E i \in 1..4 : h[i] < 0 THEN Tk(7, s, p)
              ELSE Bind(((h[1] * 16 + h[2]) * 16 + h[3]) * 16 + h[4], LAMBDA u :
                   IF u = 0 \/ u > 127 THEN Tk(10, s, p) ELSE StStr(b, p + 6, Append(s, u)))))
StLit(b, p, w, t) == IF p + Len(w) - 1 > Len(b) THEN Tk(7, <<>>, p) ELSE IF SubSeq(b, p, p + Len(w) - 1) = w THEN Tk(t, <<>>, p + Len(w)) ELSE Tk(7, <<>>, p)
StScan(b, p0) ==
    Bind(StPast(b, p0, StWs), LAMBDA p :
        IF p > Len(b) THEN Tk(9, <<>>, p)
        ELSE IF b[p] \in StPunct THEN Tk(b[p], <<>>, p + 1)
        ELSE IF b[p] = 34 THEN StStr(b, p + 1, <<>>)
        ELSE IF b[p] = 116 THEN StLit(b, p, <<116, 114, 117, 101>>, 4)
        ELSE IF b[p] = 102 THEN StLit(b, p, <<102, 97, 108, 115, 101>>, 5)
        ELSE IF b[p] = 110 THEN StLit(b, p, <<110, 117, 108, 108>>, 6)
        ELSE IF b[p] = 45 \/ b[p] \in StDigit
        THEN Bind(StUpto(b, p, StEnds), LAMBDA q :
             Bind(SubSeq(b, p, q - 1), LAMBDA t : IF StIsNum(t) THEN Tk(3, t, q) ELSE Tk(7, <<>>, p)))
        ELSE Tk(7, <<>>, p))

\* the reader's tokens <<code, position, text>> against the grammar; room: size of its buffer
RECURSIVE StRead(_, _, _, _, _, _)
StRead(b, p, toks, i, room, max) ==
    IF i > Len(toks) THEN i > max
    ELSE Bind(StScan(b, p), LAMBDA x :
         \E o \in {toks[i]} :
         IF x.t = 10 THEN TRUE
         ELSE IF room < 2 /\ o[1] = 8 THEN i = Len(toks)
         ELSE IF x.t = 9 THEN o[1] = 9 /\ i = Len(toks)
         ELSE IF x.t = 7 THEN (o[1] \in {7, 9} \/ (o[1] = 8 /\ Len(b) - p + 1 >= room - 1)) /\ i = Len(toks)
         ELSE IF o[1] = 8 THEN i = Len(toks) /\ Len(x.s) >= room - 1
         ELSE IF x.t \in {1, 3} /\ Len(x.s) >= room THEN FALSE
         ELSE /\ o[1] = x.t \/ (x.t = 3 /\ o[1] = 2 /\ StIsInt(x.s))
              /\ o[2] = x.q - 1
              /\ o[3] = x.s
              /\ StRead(b, x.q, toks, i + 1, room, max))

StCode(S) == \A i \in DOMAIN S : S[i] \in 0..255
JsScan ==
    /\ IsCall("js_scan") /\ E.ret = 0 /\ E.over = 0 /\ Unchanged
    /\ \E b \in {StBytes} : StRead(b, 1, E.toks, 1, E.len, E.max)
    /\ Step

\* tokens to be written: kind, count, data; n positions from p
RECURSIVE StWrote(_, _, _, _, _)
StWrote(w, p, n, b, q) ==
    IF p > n THEN StPast(b, q, StWs) > Len(b)
    ELSE Bind(StScan(b, q), LAMBDA x :
         \E k \in {w[p]}, d \in {SubSeq(w, p + 2, p + 1 + w[p + 1])} :
         /\ IF k = 1 THEN x.t = 1 /\ x.s = d
            ELSE IF k = 2 THEN x.t = 3 /\ StIsInt(x.s) /\ StInt(x.s) = d[1]
            ELSE IF k = 3 THEN x.t = 3 /\ StHolds(<<d[1], 0>>, x.s)
            ELSE x.t = k
         /\ StWrote(w, p + 2 + w[p + 1], n, b, x.q))
JsPut ==
    /\ IsCall("js_put") /\ E.over = 0 /\ Unchanged
    /\ IF HasKey("cap") THEN Len(E.bytes) <= E.cap ELSE E.ret = 0
    /\ \E b \in {E.bytes} :
       /\ StCode(b)
       /\ IF E.ret = 0 THEN StWrote(mem[E.x], 1, E.n, b, 1) ELSE E.ret = -1
    /\ Step

\* ---- matrices as JSON --------------------------------------------------------
RECURSIVE StToks(_, _, _)
StToks(b, p, ts) == Bind(StScan(b, p), LAMBDA x : IF x.t \in {7, 9, 10} THEN Append(ts, x) ELSE StToks(b, x.q, Append(ts, x)))
StKeys == [rows |-> <<114, 111, 119, 115>>, cols |-> <<99, 111, 108, 115>>, data |-> <<100, 97, 116, 97>>,
           nnz |-> <<110, 110, 122>>, flags |-> <<102, 108, 97, 103, 115>>]
Doc(k) == [kind |-> k]
\* elements a1, .. separated by commas up to ']': positions of their tokens, <<>> if malformed; d: tokens of one element
RECURSIVE StList(_, _, _, _)
StList(ts, i, d, l) ==
    IF i + d > Len(ts) THEN <<FALSE, l, i>>
    ELSE IF ts[i + d].t = 93 THEN <<TRUE, Append(l, i), i + d>>
    ELSE IF ts[i + d].t = 44 THEN StList(ts, i + d + 1, d, Append(l, i)) ELSE <<FALSE, l, i>>
StTriple(ts, i) == /\ ts[i].t = 91 /\ ts[i + 1].t = 3 /\ ts[i + 2].t = 44 /\ ts[i + 3].t = 3 /\ ts[i + 4].t = 44 /\ ts[i + 5].t = 3
                   /\ ts[i + 6].t = 93 /\ StSmall(ts[i + 1].s) /\ StSmall(ts[i + 3].s)
StLong(ts) == \E i \in DOMAIN ts : Len(ts[i].s) > 60      \* beyond the reader's buffer
\* the data from token i on; r, c the size
StAfter(ts, i) == i + 1 <= Len(ts) /\ ts[i + 1].t = 125
StMat(ts, i, r, c) ==
    IF i >= Len(ts) \/ r < 0 \/ c < 0 THEN Doc("bad")
    ELSE IF ts[i].t # 91 THEN Doc("bad")
    ELSE IF ts[i + 1].t = 93
    THEN IF ~StAfter(ts, i + 1) THEN Doc("bad")
         ELSE IF r * c = 0 THEN [kind |-> "mat", r |-> r, c |-> c, e |-> <<>>, q |-> ts[i + 2].q, part |-> FALSE]
         ELSE [kind |-> "mat", r |-> r, c |-> c, e |-> <<>>, q |-> ts[i + 2].q, part |-> TRUE]
    ELSE IF ts[i + 1].t = 91
    THEN Bind(StList(ts, i + 1, 7, <<>>), LAMBDA l :
         IF ~l[1] THEN Doc("bad")
         ELSE IF \E k \in DOMAIN l[2] : ~StTriple(ts, l[2][k]) THEN Doc("bad")
         ELSE IF ~StAfter(ts, l[3]) THEN Doc("bad")
         ELSE IF r * c = 0 THEN Doc("open")
         ELSE [kind |-> "coo", r |-> r, c |-> c, q |-> ts[l[3] + 1].q, part |-> FALSE,
               e |-> [k \in DOMAIN l[2] |-> <<StInt(ts[l[2][k] + 1].s), StInt(ts[l[2][k] + 3].s), ts[l[2][k] + 5].s>>]])
    ELSE Bind(StList(ts, i + 1, 1, <<>>), LAMBDA l :
         IF ~l[1] THEN Doc("bad")
         ELSE IF \E k \in DOMAIN l[2] : ts[l[2][k]].t # 3 THEN Doc("bad")
         ELSE IF ~StAfter(ts, l[3]) \/ Len(l[2]) > r * c THEN Doc("bad")
         ELSE [kind |-> "mat", r |-> r, c |-> c, q |-> ts[l[3] + 1].q, part |-> Len(l[2]) < r * c,
               e |-> [k \in DOMAIN l[2] |-> ts[l[2][k]].s]])
\* members from token i on; h: what there was, <<rows, cols, nnz, flags>>, -1 not yet
RECURSIVE StMembers(_, _, _)
StMembers(ts, i, h) ==
    IF i + 2 >= Len(ts) THEN Doc("bad")
    ELSE IF ts[i].t # 1 \/ ts[i + 1].t # 58 THEN Doc("bad")
    ELSE IF ts[i].s = StKeys.data THEN IF h[1] < 0 \/ h[2] < 0 THEN Doc("bad") ELSE StMat(ts, i + 2, h[1], h[2])
    ELSE Bind(IF ts[i].s = StKeys.rows THEN 1 ELSE IF ts[i].s = StKeys.cols THEN 2
              ELSE IF ts[i].s = StKeys.nnz THEN 3 ELSE IF ts[i].s = StKeys.flags THEN 4 ELSE 0, LAMBDA m :
         IF m = 0 THEN Doc("bad")
         ELSE IF h[m] >= 0 \/ ts[i + 2].t # 3 THEN Doc("bad")
         ELSE IF ~StSmall(ts[i + 2].s) \/ (m < 3 /\ StInt(ts[i + 2].s) < 0) THEN Doc("bad")
         ELSE IF ts[i + 3].t # 44 THEN Doc("bad")
         ELSE StMembers(ts, i + 4, [h EXCEPT ![m] = AbsV(StInt(ts[i + 2].s))]))
StDoc(b) ==
    Bind(StToks(b, 1, <<>>), LAMBDA ts :
        IF ts[1].t = 6 THEN [kind |-> "null", q |-> ts[1].q]
        ELSE IF ts[1].t # 123 THEN Doc("bad")
        ELSE IF ts[2].t = 125 THEN [kind |-> "null", q |-> ts[2].q]
        ELSE IF StLong(ts) \/ ts[Len(ts)].t = 10 THEN Doc("open")
        ELSE StMembers(ts, 2, <<-1, -1, -1, -1>>))
\* element at row i, column j (from 0) of the matrix denoted
StLast(e, i, j) == {k \in DOMAIN e : e[k][1] = i /\ e[k][2] = j /\ \A l \in DOMAIN e : IF l > k THEN e[l][1] # i \/ e[l][2] # j ELSE TRUE}
StIsMat(d, r, c, m) ==
    /\ d.r = r /\ d.c = c /\ Len(m) = r * c
    /\ IF d.kind = "mat"
       THEN \A k \in 1..(r * c) : IF k <= Len(d.e) THEN StHolds(m[k], d.e[k]) ELSE m[k] = FZero
       ELSE \A i \in 0..(r - 1), j \in 0..(c - 1) :
            \E S \in {StLast(d.e, i, j)} :
            IF S = {} THEN m[1 + i + j * r] = FZero ELSE \E k \in S : StHolds(m[1 + i + j * r], d.e[k][3])
JsLoad ==
    /\ IsCall("js_load") /\ E.dl = 0 /\ Unchanged
    /\ \E b \in {StBytes} : \E d \in {StDoc(b)} :
       IF d.kind = "open" THEN TRUE
       ELSE IF d.kind = "bad" THEN E.ret < 0
       ELSE IF d.kind = "null" THEN E.ret = 0 /\ E.null = 1 /\ E.pos = d.q - 1
       ELSE IF E.ret < 0 THEN d.part
       ELSE /\ E.ret = 0 /\ E.null = 0 /\ E.self = E.given /\ E.pos = d.q - 1
            /\ StIsMat(d, E.mr, E.mc, E.mat)
    /\ Step

\* elements in four parts of 16 bits
StFinite(w, k) == \A i \in Rng(k) : (w[4 * i + 1] \div 16) % 2048 # 2047
StSame(r, c) == E.mr = r /\ E.mc = c /\ \A i \in 1..(4 * r * c) : Obs(E.y)[i] = mem[E.x][i]
JsTrip ==
    /\ IsCall("js_trip") /\ E.over = 0 /\ E.dl = 0 /\ Frame({E.y})
    /\ IF HasKey("cap") THEN Len(E.bytes) <= E.cap ELSE (E.wret = 0) = StFinite(mem[E.x], E.r * E.c)
    /\ IF E.wret # 0 THEN E.wret < 0 /\ Unchanged
       ELSE \E b \in {E.bytes} :
            /\ StCode(b)
            /\ \E d \in {StDoc(b)} : d.kind = "mat" /\ d.r = E.r /\ d.c = E.c /\ ~d.part /\ d.q > Len(b)
            /\ E.ret = 0 /\ StSame(E.r, E.c)
    /\ Step
JsNull ==
    /\ IsCall("js_null") /\ E.over = 0 /\ Unchanged
    /\ IF HasKey("cap") THEN E.ret < 0 /\ Len(E.bytes) <= E.cap
       ELSE E.ret = 0 /\ \E b \in {E.bytes} : StDoc(b).kind = "null"
    /\ Step

\* ---- Matrix Market -----------------------------------------------------------
\* lines as sequences of words
StLine1(a, c) ==        \* <<lines, words, word, line number>>
    IF c = 10 THEN <<Append(a[1], IF a[3] = <<>> THEN a[2] ELSE Append(a[2], a[3])), <<>>, <<>>>>
    ELSE IF c \in {9, 13, 32} THEN IF a[3] = <<>> THEN a ELSE <<a[1], Append(a[2], a[3]), <<>>>>
    ELSE <<a[1], a[2], Append(a[3], c)>>
StLines(b) == Bind(FoldLeft(StLine1, <<<<>>, <<>>, <<>>>>, Append(b, 10)), LAMBDA a : a[1])
StWord(s) == [i \in DOMAIN s |-> StLower(s[i])]
MmWords == [header |-> <<37, 37, 109, 97, 116, 114, 105, 120, 109, 97, 114, 107, 101, 116>>, matrix |-> <<109, 97, 116, 114, 105, 120>>,
            array |-> <<97, 114, 114, 97, 121>>, coord |-> <<99, 111, 111, 114, 100, 105, 110, 97, 116, 101>>,
            real |-> <<114, 101, 97, 108>>, int |-> <<105, 110, 116, 101, 103, 101, 114>>,
            herm |-> <<104, 101, 114, 109, 105, 116, 105, 97, 110>>,
            gen |-> <<103, 101, 110, 101, 114, 97, 108>>, symm |-> <<115, 121, 109, 109, 101, 116, 114, 105, 99>>]
MmNum(s) == StIsNum(IF s[1] = 43 THEN SubSeq(s, 2, Len(s)) ELSE s)
\* numbers of strtod that are none of the grammar above: no digit beside the point, zeros in front.  Readers may take them or refuse them.
MmFix1(o, c) ==
    IF c = 46 THEN (IF o = <<>> THEN <<48>> ELSE IF o[Len(o)] \notin 48..57 THEN Append(o, 48) ELSE o) \o <<46>>
    ELSE IF c \in 48..57 /\ o # <<>>
    THEN IF o[Len(o)] = 48 /\ (Len(o) = 1 \/ (Len(o) = 2 /\ o[1] = 45)) THEN Append(SubSeq(o, 1, Len(o) - 1), c) ELSE Append(o, c)
    ELSE IF o # <<>> /\ c \notin 48..57
    THEN IF o[Len(o)] = 46 THEN o \o <<48, c>> ELSE Append(o, c)
    ELSE Append(o, c)
MmFix(s) == Bind(FoldLeft(MmFix1, <<>>, IF s[1] = 43 THEN SubSeq(s, 2, Len(s)) ELSE s), LAMBDA o :
            IF o = <<>> THEN o ELSE IF o[Len(o)] = 46 THEN Append(o, 48) ELSE o)
MmLoose(s) == /\ ~MmNum(s)
              /\ \E k \in DOMAIN s : s[k] \in 48..57 /\ \A j \in 1..k : s[j] \notin {69, 101}
              /\ Bind(MmFix(s), LAMBDA o : IF o = <<>> THEN FALSE ELSE StIsNum(o))
MmInt(s) == Len(s) <= 8 /\ StIsInt(s)
\* index of the first line from l on that is not blank
RECURSIVE MmNext(_, _)
MmNext(ls, l) == IF l > Len(ls) THEN l ELSE IF ls[l] = <<>> THEN MmNext(ls, l + 1)
                 ELSE IF ls[l][1][1] = 37 THEN MmNext(ls, l + 1) ELSE l
MmRest(ls, l) == SelectSeq(SubSeq(ls, l, Len(ls)), LAMBDA w : IF w = <<>> THEN FALSE ELSE w[1][1] # 37)
\* <<row, column, text>> of every entry of an array, by position; columns of the lower triangle if symmetric
RECURSIVE MmTri(_, _, _, _)
MmTri(n, i, j, s) == IF j >= n THEN s ELSE IF i = n - 1 THEN MmTri(n, j + 1, j + 1, Append(s, <<i, j>>)) ELSE MmTri(n, i + 1, j, Append(s, <<i, j>>))
MmPlaces(r, c, sym) == IF sym THEN MmTri(r, 0, 0, <<>>) ELSE [k \in 1..(r * c) |-> <<(k - 1) % r, (k - 1) \div r>>]
MmFile(b) ==
    Bind(StLines(b), LAMBDA ls :
    IF Len(ls[1]) < 4 THEN Doc("bad")
    ELSE Bind([k \in DOMAIN ls[1] |-> StWord(ls[1][k])], LAMBDA h :
    IF h[1] # MmWords.header \/ h[2] # MmWords.matrix \/ h[3] \notin {MmWords.array, MmWords.coord} THEN Doc("bad")
    ELSE IF h[4] = MmWords.int THEN Doc("open")
    ELSE IF h[4] # MmWords.real THEN Doc("bad")
    ELSE IF Len(h) # 5 THEN Doc("open")
    ELSE IF h[5] = MmWords.herm THEN Doc("open")
    ELSE IF h[5] \notin {MmWords.gen, MmWords.symm} THEN Doc("bad")
    ELSE \* size
    Bind(MmNext(ls, 2), LAMBDA l :
    IF l > Len(ls) THEN Doc("bad")
    ELSE Bind(ls[l], LAMBDA z :
    IF Len(z) # (IF h[3] = MmWords.array THEN 2 ELSE 3) THEN Doc("bad")
    ELSE IF \E k \in DOMAIN z : ~MmInt(z[k]) THEN Doc("bad")
    ELSE IF \E k \in DOMAIN z : StInt(z[k]) < 0 THEN Doc("bad")
    ELSE Bind(<<StInt(z[1]), StInt(z[2]), h[5] = MmWords.symm, MmRest(ls, l + 1)>>, LAMBDA s :
    IF s[3] /\ s[1] # s[2] THEN Doc("bad")
    ELSE IF s[1] = 0 \/ s[2] = 0 THEN Doc("open")
    ELSE IF h[3] = MmWords.array
    THEN IF s[1] * s[2] > 10000 THEN Doc("bad")
         ELSE Bind(MmPlaces(s[1], s[2], s[3]), LAMBDA pl :
         IF Len(s[4]) # Len(pl) THEN Doc("bad")
         ELSE IF \E k \in DOMAIN pl : Len(s[4][k]) # 1 THEN Doc("bad")
         ELSE IF \E k \in DOMAIN pl : ~MmNum(s[4][k][1]) /\ ~MmLoose(s[4][k][1]) THEN Doc("bad")
         ELSE IF \E k \in DOMAIN pl : MmLoose(s[4][k][1]) THEN Doc("open")
         ELSE [kind |-> "mm", r |-> s[1], c |-> s[2], sym |-> s[3], coo |-> FALSE,
               e |-> [k \in DOMAIN pl |-> <<pl[k][1], pl[k][2], s[4][k][1]>>]])
    ELSE IF Len(s[4]) # StInt(z[3]) THEN Doc("bad")
    ELSE IF \E k \in DOMAIN s[4] : Len(s[4][k]) # 3 THEN Doc("bad")
    ELSE IF \E k \in DOMAIN s[4] : ~MmInt(s[4][k][1]) \/ ~MmInt(s[4][k][2]) \/ (~MmNum(s[4][k][3]) /\ ~MmLoose(s[4][k][3])) THEN Doc("bad")
    ELSE IF \E k \in DOMAIN s[4] : MmLoose(s[4][k][3]) THEN Doc("open")
    ELSE Bind([k \in DOMAIN s[4] |-> <<StInt(s[4][k][1]) - 1, StInt(s[4][k][2]) - 1, s[4][k][3]>>], LAMBDA e :
         IF \E k \in DOMAIN e : e[k][1] \notin 0..(s[1] - 1) \/ e[k][2] \notin 0..(s[2] - 1) THEN Doc("bad")
         ELSE IF s[3] /\ \E k \in DOMAIN e : e[k][1] < e[k][2] THEN Doc("bad")
         ELSE [kind |-> "mm", r |-> s[1], c |-> s[2], sym |-> s[3], coo |-> TRUE, e |-> e]))))))
\* text of a number without its plus sign
MmText(t) == IF t[1] = 43 THEN SubSeq(t, 2, Len(t)) ELSE t
MmIsMat(d, m) ==
    /\ E.mr = d.r /\ E.mc = d.c /\ Len(m) = d.r * d.c
    /\ \A i \in 0..(d.r - 1), j \in 0..(d.c - 1) :
       \E S \in {StLast(d.e, i, j)} :
       IF S = {} THEN m[1 + i + j * d.r] = FZero ELSE \E k \in S : StHolds(m[1 + i + j * d.r], MmText(d.e[k][3]))
MmLoad ==
    /\ IsCall("mm_load") /\ E.dl = 0 /\ Unchanged
    /\ \E b \in {StBytes} : \E d \in {MmFile(b)} :
       IF d.kind = "open" THEN TRUE
       ELSE IF d.kind = "bad" THEN E.ret < 0
       ELSE /\ E.ret >= 0 /\ E.other = 0 /\ (E.symm = 1) = d.sym
            /\ MmIsMat(d, E.mat)
    /\ Step
MmSpLoad ==
    /\ IsCall("mm_spload") /\ E.dl = 0 /\ Unchanged
    /\ \E b \in {StBytes} : \E d \in {MmFile(b)} :
       IF d.kind = "open" THEN TRUE
       ELSE IF d.kind = "bad" THEN E.ret < 0
       ELSE IF ~d.coo THEN E.ret < 0
       ELSE /\ E.ret = 0 /\ E.kind = 2 /\ (E.symm = 1) = d.sym
            /\ E.mr = d.r /\ E.mc = d.c /\ Len(E.mat) = Len(d.e)
            /\ \A k \in DOMAIN d.e : /\ E.mat[k][1] = d.e[k][1] /\ E.mat[k][2] = d.e[k][2]
                                     /\ StHolds(E.mat[k][3], MmText(d.e[k][3]))
    /\ Step
\* what is written is a file of the matrix, and reading gives the matrix
MmTrip ==
    /\ IsCall("mm_trip") /\ E.dl = 0 /\ Frame({E.y}) /\ E.wret = 0
    /\ \E b \in {E.bytes}, sym \in {Has("SYMM")} :
       \E d \in {MmFile(b)} :
       /\ StCode(b)
       /\ d.kind = "mm" /\ ~d.coo /\ d.r = E.r /\ d.c = E.c /\ d.sym = sym
       /\ E.ret >= 0 /\ (E.symm = 1) = sym
       /\ IF ~sym THEN StSame(E.r, E.c)
          ELSE /\ E.mr = E.r /\ E.mc = E.c
               /\ \A i \in Rng(E.r), j \in Rng(E.c) : \A q \in 1..4 :
                  Obs(E.y)[4 * (i + j * E.r) + q] = (IF i >= j THEN mem[E.x][4 * (i + j * E.r) + q] ELSE 0)
    /\ Step
MmSpTrip ==
    /\ IsCall("mm_sptrip") /\ E.dl = 0 /\ Frame({E.y}) /\ E.wret = 0
    /\ \E b \in {E.bytes} : \E d \in {MmFile(b)} :
       /\ StCode(b)
       /\ d.kind = "mm" /\ d.coo /\ d.r = E.r /\ d.c = E.c /\ d.sym = (E.sym = 1)
       /\ E.ret = 0 /\ E.symm = E.sym /\ E.mr = E.r /\ E.mc = E.c /\ E.cnt = E.n
       \* the same entries, in the order of the storage
       /\ \E R \in {[k \in Rng(E.n) |-> SubSeq(Obs(E.y), 6 * k + 1, 6 * k + 6)]}, S \in {[k \in Rng(E.n) |-> SubSeq(mem[E.x], 6 * k + 1, 6 * k + 6)]} :
          IF E.kind = 2 THEN R = S ELSE {R[k] : k \in Rng(E.n)} = {S[k] : k \in Rng(E.n)}
    /\ Step

StreamNext == JsScan \/ JsPut \/ JsLoad \/ JsTrip \/ JsNull \/ MmLoad \/ MmSpLoad \/ MmTrip \/ MmSpTrip
=============================================================================
