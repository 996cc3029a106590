------------------------------- MODULE Dense ---------------------------------
(* Matrix handles.  A handle x is the storage                                *)
(*   <<rows, columns, stride, first element, root, owns>>                    *)
(* where root k names the elements it looks at: 0 none, 1 the caller's       *)
(* elements P, k > 1 storage of the library's own, seen as buffer Hk (zeros   *)
(* while there is none).  What counts is which element of the root each       *)
(* element of a view is; strides that make no difference are free.           *)
EXTENDS Work

Hd(x) == mem[x]
Root(k) == IF k = 1 THEN "P" ELSE "H" \o ToString(k)
HPos(h, i, j) == h[4] + j * h[3] + i
HSize(h) == h[1] * h[2]
HNone == <<0, 0, 0, 0, 0, 0>>
Neg(i, n) == IF i < 0 THEN i + n ELSE i
Covers(new, h, nr, nc, p(_, _)) ==
    /\ new[1] = nr /\ new[2] = nc /\ new[6] = 0
    /\ IF nr > 0 /\ nc > 0
       THEN new[5] = h[5] /\ \A i \in Rng(nr) : \A j \in Rng(nc) : HPos(new, i, j) = p(i, j)
       ELSE TRUE
\* block of nr x nc elements of h that starts at i0,j0
Block(new, h, i0, j0, nr, nc) == Covers(new, h, nr, nc, LAMBDA i, j : HPos(h, i0 + i, j0 + j))

DBegin == IsCall("dn_begin") /\ Unchanged /\ Step

\* ---- views: x becomes a view of a; nothing else changes, no element does
ViewCall(op) == IsCall(op) /\ Frame({E.x}) /\ E.dl = 0
\* by the checking functions there is no view of what has no elements
IsNone == Obs(E.x) = HNone /\ E.null = 1
\* without a source
NoSource == ~HasKey("a")
SrcEmpty == IF NoSource THEN TRUE ELSE HSize(Hd(E.a)) = 0
DColumn == /\ ViewCall("dn_column")
           /\ IF SrcEmpty THEN IsNone
              ELSE E.null = 0 /\ E.self = 1 /\ \E h \in {Hd(E.a)} : \E c \in {Neg(E.i, h[2])} : Block(Obs(E.x), h, 0, c, h[1], 1)
           /\ Step
DRow == /\ ViewCall("dn_row")
        /\ IF SrcEmpty THEN IsNone
           ELSE E.null = 0 /\ E.self = 1 /\ \E h \in {Hd(E.a)} : \E r \in {Neg(E.i, h[1])} : Block(Obs(E.x), h, r, 0, 1, h[2])
        /\ Step
\* counts below zero: as far as there is
DSub == /\ ViewCall("dn_sub")
        /\ IF SrcEmpty THEN IsNone
           ELSE /\ E.null = 0 /\ E.self = 1
                /\ \E h \in {Hd(E.a)} : \E r \in {Neg(E.i, h[1])}, c \in {Neg(E.j, h[2])} :
                   Block(Obs(E.x), h, r, c, IF E.r < 0 THEN h[1] - r ELSE E.r, IF E.c < 0 THEN h[2] - c ELSE E.c)
        /\ Step
\* with a stride of its own
DSubExt == /\ ViewCall("dn_subext")
           /\ IF SrcEmpty THEN IsNone
              ELSE /\ E.null = 0 /\ E.self = 1
                   /\ \E h \in {Hd(E.a)} : \E r \in {Neg(E.i, h[1])}, c \in {Neg(E.j, h[2])}, s \in {IF E.s < 0 THEN h[3] ELSE E.s} :
                      Covers(Obs(E.x), h, IF E.r < 0 THEN h[1] - r ELSE E.r, IF E.c < 0 THEN h[2] - c ELSE E.c,
                             LAMBDA i, j : HPos(h, r, c) + j * s + i)
           /\ Step
\* of a matrix there is no part that is a vector
DSubvec == /\ ViewCall("dn_subvec")
           /\ \E h \in {IF NoSource THEN HNone ELSE Hd(E.a)} :
              IF h[1] # 1 /\ h[2] # 1 THEN Obs(E.x) = HNone
              ELSE IF HSize(h) = 0 THEN Obs(E.x) = HNone
              ELSE \E n \in {Neg(E.i, HSize(h))} : \E k \in {IF E.n < 0 THEN HSize(h) - n ELSE E.n} :
                   IF h[1] = 1 THEN Block(Obs(E.x), h, 0, n, 1, k) ELSE Block(Obs(E.x), h, n, 0, k, 1)
           /\ Step
\* the k'th diagonal as row vector
DDiag == /\ ViewCall("dn_diag")
         /\ IF SrcEmpty THEN IsNone
            ELSE /\ E.null = 0 /\ E.self = 1
                 /\ \E h \in {Hd(E.a)} :
                    \E i0 \in {IF E.dg < 0 THEN -E.dg ELSE 0}, j0 \in {IF E.dg > 0 THEN E.dg ELSE 0} :
                    Covers(Obs(E.x), h, 1, Min2(h[1] - i0, h[2] - j0), LAMBDA i, j : HPos(h, i0 + j, j0 + j))
         /\ Step
DColAsRow == /\ ViewCall("dn_colrow")
             /\ \E h \in {Hd(E.a)} : Covers(Obs(E.x), h, 1, h[1], LAMBDA i, j : HPos(h, j, 0))
             /\ Step
DMake == /\ ViewCall("dn_make") /\ E.self = 1
         /\ Covers(Obs(E.x), <<0, 0, 0, 0, 1, 0>>, E.r, E.c, LAMBDA i, j : E.o + j * E.s + i)
         /\ Step
DZero == ViewCall("dn_zero") /\ Obs(E.x) = HNone /\ Step

\* ---- elements
DGet == /\ IsCall("dn_get") /\ Unchanged /\ E.dl = 0
        /\ \E h \in {Hd(E.a)} :
           E.val = (IF HSize(h) = 0 THEN 0 ELSE mem[Root(h[5])][HPos(h, Neg(E.i, h[1]), Neg(E.j, h[2])) + 1])
        /\ Step
Put(h, p) == Frame({Root(h[5])}) /\ Obs(Root(h[5])) = [mem[Root(h[5])] EXCEPT ![p + 1] = E.v]
DSet == /\ IsCall("dn_set") /\ E.dl = 0
        /\ \E h \in {Hd(E.a)} :
           IF HSize(h) = 0 THEN Unchanged ELSE Put(h, HPos(h, Neg(E.i, h[1]), Neg(E.j, h[2])))
        /\ Step
\* elements in order, column by column
NthPos(h, k) == HPos(h, Neg(k, HSize(h)) % h[1], Neg(k, HSize(h)) \div h[1])
DGetAt == /\ IsCall("dn_getat") /\ Unchanged /\ E.dl = 0
          /\ \E h \in {Hd(E.a)} : E.val = (IF HSize(h) = 0 THEN 0 ELSE mem[Root(h[5])][NthPos(h, E.i) + 1])
          /\ Step
DSetAt == /\ IsCall("dn_setat") /\ E.dl = 0
          /\ \E h \in {Hd(E.a)} : IF HSize(h) = 0 THEN Unchanged ELSE Put(h, NthPos(h, E.i))
          /\ Step
\* places relative to the first element
DIndex == /\ IsCall("dn_index") /\ Unchanged
          /\ \E h \in {Hd(E.a)} : E.val = (IF HSize(h) = 0 THEN 0 ELSE HPos(h, Neg(E.i, h[1]), Neg(E.j, h[2])) - h[4])
          /\ Step
DReal == /\ IsCall("dn_real") /\ Unchanged
         /\ \E h \in {Hd(E.a)} : E.val = NthPos(h, E.i) - h[4]
         /\ Step
DInfo == /\ IsCall("dn_info") /\ Unchanged
         /\ IF NoSource THEN E.size = 0 /\ E.isvec = 0 /\ E.valid = 0 /\ E.data = -1
            ELSE \E h \in {Hd(E.a)} :
                 /\ E.size = HSize(h) /\ E.isvec = (IF h[1] = 1 \/ h[2] = 1 THEN 1 ELSE 0)
                 /\ E.valid = (IF E.i >= -HSize(h) /\ E.i < HSize(h) THEN 1 ELSE 0)
                 /\ E.data = (IF h[5] = 0 THEN -1 ELSE h[4])
         /\ Step

\* ---- storage: zeroed, aligned, large enough, of its own; given back once, by the owner
Zeros(n) == [i \in 1..n |-> 0]
Owned(new, k, r, c) == /\ new[1] = r /\ new[2] = c /\ new[3] >= r /\ new[4] = 0 /\ new[5] = k /\ new[6] = 1
                       /\ E.al = 0 /\ E.fit = 1
DInit == /\ IsCall("dn_init") /\ E.self = 1
         /\ IF E.r <= 0 \/ E.c <= 0
            THEN Obs(E.x) = <<Max2(E.r, 0), Max2(E.c, 0), 0, 0, 0, 0>> /\ E.dl = 0 /\ Frame({E.x})
            ELSE Owned(Obs(E.x), E.st, E.r, E.c) /\ E.dl > 0 /\ Obs(Root(E.st)) = Zeros(Len(mem[Root(E.st)])) /\ Frame({E.x, Root(E.st)})
         /\ Step
DAlloc == /\ IsCall("dn_alloc")
          /\ IF E.r = 0 \/ E.c = 0 THEN E.null = 1 /\ E.dl = 0 /\ Unchanged
             ELSE Owned(Obs(E.x), E.st, E.r, E.c) /\ E.dl > 0 /\ Obs(Root(E.st)) = Zeros(Len(mem[Root(E.st)])) /\ Frame({E.x, Root(E.st)})
          /\ Step
\* more than there is memory for, or than can be counted
DHuge == /\ IsCall("dn_huge") /\ E.null = 1 /\ E.dl = 0 /\ Unchanged /\ Step
DCopy == /\ IsCall("dn_newcopy")
         /\ \E h \in {Hd(E.a)} :
            IF HSize(h) = 0 THEN E.null = 1 /\ E.dl = 0 /\ Unchanged
            ELSE /\ Owned(Obs(E.x), E.st, h[1], h[2]) /\ E.dl > 0 /\ Frame({E.x, Root(E.st)})
                 /\ \A i \in Rng(h[1]) : \A j \in Rng(h[2]) : Obs(Root(E.st))[HPos(Obs(E.x), i, j) + 1] = mem[Root(h[5])][HPos(h, i, j) + 1]
         /\ Step
DGone(h) == /\ IF h[6] = 1 THEN Obs(Root(h[5])) = Zeros(Len(mem[Root(h[5])])) /\ E.dl < 0 ELSE E.dl = 0
DRelease == /\ IsCall("dn_release")
            /\ \E h \in {Hd(E.x)} :
               /\ DGone(h)
               /\ IF h[6] = 1 THEN Obs(E.x) = HNone /\ Frame({E.x, Root(h[5])}) ELSE Unchanged
            /\ Step
\* the handle itself is given back as well
DFree == /\ IsCall("dn_free") /\ E.dl < 0
         /\ \E h \in {Hd(E.x)} :
            /\ Obs(E.x) = HNone
            /\ IF h[6] = 1 THEN Obs(Root(h[5])) = Zeros(Len(mem[Root(h[5])])) /\ Frame({E.x, Root(h[5])}) ELSE Frame({E.x})
         /\ Step
DFreeNone == IsCall("dn_freenone") /\ Unchanged /\ E.dl = 0 /\ Step
\* nothing is left when nobody owns anything
DLive == IsCall("dn_live") /\ Unchanged /\ E.live = 0 /\ Step

\* ---- partitions: [0,n) with the first part k long is cut in three, nb taken from the part after or before
CutAt(n, k, nb, fwd) == IF fwd THEN <<0, k, k + Min2(nb, n - k), n>> ELSE <<0, k - Min2(nb, k), k, n>>
\* parts x[p,q] are the blocks given by the row cuts and the column cuts; "" is a part not asked for
Parts(names, h, rc, cc) ==
    /\ \A p \in 1..(Len(rc) - 1) : \A q \in 1..(Len(cc) - 1) :
         \E x \in {names[(p - 1) * (Len(cc) - 1) + q]} :
            IF x = "" THEN TRUE ELSE Block(Obs(x), h, rc[p], cc[q], rc[p + 1] - rc[p], cc[q + 1] - cc[q])
    /\ Frame({names[n] : n \in DOMAIN names}) /\ E.dl = 0
\* how: "r" rows, "c" columns, "v" elements of a vector
DWhole(h, how) == IF how = "r" THEN h[1] ELSE IF how = "c" THEN h[2] ELSE HSize(h)
PartIs(h, how, cut) == IF how = "r" \/ (how = "v" /\ h[1] # 1) THEN Parts(E.xs, h, cut, <<0, h[2]>>) ELSE Parts(E.xs, h, <<0, h[1]>>, cut)
DPart == /\ IsCall("dn_part")
         /\ \E h \in {Hd(E.a)} : \E n \in {DWhole(h, E.how)} : \E nb \in {Min2(E.nb, n)} :
            PartIs(h, E.how, IF E.fwd = 1 THEN <<0, nb, n>> ELSE <<0, n - nb, n>>)
         /\ Step
DRepart == /\ IsCall("dn_repart")
           /\ \E h \in {Hd(E.a)}, t \in {Hd(E.t)} : PartIs(h, E.how, CutAt(DWhole(h, E.how), DWhole(t, E.how), E.nb, E.fwd = 1))
           /\ Step
DContinue == /\ IsCall("dn_continue")
             /\ \E h \in {Hd(E.a)}, t \in {Hd(E.t)}, m \in {Hd(E.m)} :
                PartIs(h, E.how, <<0, DWhole(t, E.how) + (IF E.fwd = 1 THEN DWhole(m, E.how) ELSE 0), DWhole(h, E.how)>>)
             /\ Step
DPart2 == /\ IsCall("dn_part2")
          /\ \E h \in {Hd(E.a)} :
             IF E.fwd = 1 THEN Parts(E.xs, h, <<0, E.mb, h[1]>>, <<0, E.nb, h[2]>>)
             ELSE Parts(E.xs, h, <<0, h[1] - E.mb, h[1]>>, <<0, h[2] - E.nb, h[2]>>)
          /\ Step
DRepart2 == /\ IsCall("dn_repart2")
            /\ \E h \in {Hd(E.a)}, t \in {Hd(E.t)} :
               \E nb \in {IF E.fwd = 1 THEN Min2(E.nb, Min2(h[1] - t[1], h[2] - t[2])) ELSE Min2(E.nb, Min2(t[1], t[2]))} :
               Parts(E.xs, h, CutAt(h[1], t[1], nb, E.fwd = 1), CutAt(h[2], t[2], nb, E.fwd = 1))
            /\ Step
DContinue2 == /\ IsCall("dn_continue2")
              /\ \E h \in {Hd(E.a)}, t \in {Hd(E.t)}, m \in {Hd(E.m)} :
                 \E k \in {IF E.fwd = 1 THEN m[1] ELSE 0} :
                 Parts(E.xs, h, <<0, t[1] + k, h[1]>>, <<0, t[2] + k, h[2]>>)
              /\ Step
\* neighbours put together
DMerge == /\ ViewCall("dn_merge")
          /\ \E h \in {Hd(E.a)}, g \in {Hd(E.t)} :
             IF HSize(h) = 0 /\ HSize(g) = 0 THEN Obs(E.x)[1] * Obs(E.x)[2] = 0 /\ Obs(E.x)[6] = 0
             ELSE IF HSize(h) = 0 THEN Block(Obs(E.x), g, 0, 0, g[1], g[2])
             ELSE IF HSize(g) = 0 THEN Block(Obs(E.x), h, 0, 0, h[1], h[2])
             ELSE IF E.how = "r" THEN Block(Obs(E.x), h, 0, 0, h[1] + g[1], h[2]) ELSE Block(Obs(E.x), h, 0, 0, h[1], h[2] + g[2])
          /\ Step

DenseNext == DBegin \/ DColumn \/ DRow \/ DSub \/ DSubExt \/ DSubvec \/ DDiag \/ DColAsRow \/ DMake \/ DZero \/ DGet \/ DSet \/ DGetAt \/ DSetAt
             \/ DIndex \/ DReal \/ DInfo \/ DInit \/ DAlloc \/ DHuge \/ DCopy \/ DRelease \/ DFree \/ DFreeNone \/ DLive
             \/ DPart \/ DRepart \/ DContinue \/ DPart2 \/ DRepart2 \/ DContinue2 \/ DMerge
=============================================================================
