-------------------------------- MODULE Work ---------------------------------
(* Workspace. (1) The buffer of work areas: a buffer of `bytes' bytes whose   *)
(* first `off' are handed out; it is seen as the storage <<bytes, off>>.      *)
(* (2) Calls given less than the queried size: refused, or done all the same. *)
(* (3) Two ways of doing the same thing leave the same results.               *)
EXTENDS Err

WB == mem[E.w]
WBytes == WB[1]
WOff == WB[2]
WObs == Obs(E.w)
Up8(n) == ((n + 7) \div 8) * 8
WSet(b, o) == WObs = <<b, o>> /\ Frame({E.w})

\* wb_alloc: n zeroed bytes of own; wb_attach: n bytes of the caller, of which o are taken
WbAlloc == /\ IsCall("wb_alloc") /\ E.ret = 0 /\ E.zero = E.n
           /\ WSet(E.n, 0) /\ Step
WbAttach == IsCall("wb_attach") /\ WSet(E.n, E.o) /\ Step
\* an area is aligned, follows all others, is inside; it is only refused if there is no such area
Hand(n) ==
    IF n <= WBytes /\ Up8(WOff) <= WBytes - n
    THEN /\ E.val >= WOff /\ E.val % 8 = 0 /\ E.val + n <= WBytes
         /\ WObs[1] = WBytes /\ WObs[2] >= E.val + n /\ WObs[2] <= WBytes /\ WObs[2] - (E.val + n) < 8 /\ E.val - WOff < 8
         /\ Frame({E.w})
    ELSE E.val = -1 /\ Unchanged
\* counts over 2^30 stand for ones that no buffer can hold (the script has 64 bit numbers)
Area(n, m) == IF n >= 1073741823 THEN n ELSE IF m = 0 THEN 0 ELSE IF n > 1073741823 \div m THEN 1073741823 ELSE n * m
WbReserve == /\ \/ IsCall("wb_bytes") /\ Hand(E.n)
                \/ IsCall("wb_elems") /\ Hand(Area(E.n, E.m))
                \/ IsCall("wb_bits") /\ Hand((E.n + 7) \div 8)
             /\ Step
WbReset == IsCall("wb_reset") /\ WSet(WBytes, 0) /\ Step
WbSetpos == /\ IsCall("wb_setpos")
            /\ IF E.n <= WBytes THEN WSet(WBytes, E.n) ELSE Unchanged
            /\ Step
\* free space, position, the first free byte
WbGet == IsCall("wb_get") /\ Unchanged /\ E.free = WBytes - WOff /\ E.pos = WOff /\ E.ptr = WOff /\ Step
\* nothing is there without a buffer
WbNone == IsCall("wb_none") /\ Unchanged /\ E.free = 0 /\ E.pos = 0 /\ E.ptr = -1 /\ E.val = -1 /\ Step
\* areas in use still have what was written to them, whatever was done with others
WbKept == IsCall("wb_kept") /\ Unchanged /\ E.lost = 0 /\ Step
WbZero == /\ IsCall("wb_zero") /\ Unchanged
          /\ E.cleared = (IF E.n > 0 /\ E.n <= WBytes THEN E.n ELSE WBytes) /\ E.other = 0
          /\ Step
WbRelease == IsCall("wb_release") /\ WSet(0, 0) /\ E.null = 1 /\ Step
WbNew == IsCall("wb_new") /\ WSet(E.n, 0) /\ E.zero = E.n /\ Step
WbFree == IsCall("wb_free") /\ Frame({E.w}) /\ Step

\* less than the queried size: either refused for that reason, with nothing done, or done (the ordinary actions)
WShort == /\ More /\ E.k = "call" /\ HasKey("wp")
          /\ ~HasKey("crash") /\ ~HasKey("guard")
          /\ E.ret < 0 /\ E.err \in {3, 5} /\ E.wq = 0 /\ E.wsz >= 0 /\ E.wdirty = 0 /\ E.wover = 0 /\ E.wkeep = 1 /\ E.wused = 0
          /\ Unchanged /\ Step

\* results of two ways of doing the same: pairs of buffers, equal up to the last place
Gap(x, y) == IF x = y THEN TRUE
             ELSE IF x[1] - y[1] \in -1..1 THEN (x[1] - y[1]) * 32768 + x[2] - y[2] \in -64..64 ELSE FALSE
SameBuf(p) == \E x \in {mem[p[1]]}, y \in {mem[p[2]]} :
                 IF p[3] = "x" THEN Len(x) = Len(y) /\ \A i \in 1..Len(x) : Gap(x[i], y[i]) ELSE x = y
Same == /\ IsCall("same") /\ Unchanged
        /\ \A k \in DOMAIN E.pairs : SameBuf(E.pairs[k])
        /\ Step

WorkNext == WbAlloc \/ WbAttach \/ WbReserve \/ WbReset \/ WbSetpos \/ WbGet \/ WbNone \/ WbKept \/ WbZero
            \/ WbRelease \/ WbNew \/ WbFree \/ WShort \/ Same
=============================================================================
