-------------------------------- MODULE Cbuf ---------------------------------
(* Cache buffers.  Thread t (0..3) has at most one buffer of its own, storage *)
(* Gt = <<block, bytes>>, block 0 if there is none.  A selected buffer s is   *)
(* <<kind, block, bytes>>: 0 nothing, 1 memory of its own, 2 the thread's,    *)
(* 3 the workspace of the configuration (WK = <<bytes, taken>>), 4 memory of  *)
(* the caller.  CM = <<bytes, inner bytes>> is what is configured.            *)
(* (That operations use the one selected: CbufOk in Machine.)                 *)
EXTENDS Dense

GOf(t) == "G" \o ToString(t)
Threads == {t \in 0..3 : GOf(t) \in DOMAIN mem}
Blocks(m) == {m[GOf(t)][1] : t \in Threads} \ {0}
\* aligned, and all of it inside memory of the right owner
Sound == E.al = 0 /\ E.inside = 1
LineUp(n) == ((n + 63) \div 64) * 64

\* the thread's buffer is there or made; it is nobody else's
Mine(new) == /\ IF mem[GOf(E.on)][1] # 0 THEN new = mem[GOf(E.on)] ELSE new[1] > 0 /\ new[1] \notin Blocks(mem)
             /\ new[2] > mem["CM"][1] - 64
CbBegin == IsCall("cb_begin") /\ Unchanged /\ Step
CbThread == /\ IsCall("cb_thread") /\ Frame({GOf(E.on)}) /\ Sound /\ Mine(Obs(GOf(E.on)))
            /\ E.dl = (IF mem[GOf(E.on)][1] = 0 THEN 1 ELSE 0)
            /\ Step
CbUnthread == /\ IsCall("cb_unthread") /\ Frame({GOf(E.on)}) /\ Obs(GOf(E.on)) = <<0, 0>>
              /\ E.dl = (IF mem[GOf(E.on)][1] = 0 THEN 0 ELSE -1)
              /\ Step
\* memory of its own: at least what was asked for
Own(new, n) == new[1] = 1 /\ new[2] \in Nat /\ new[3] >= n /\ E.dl = 1 /\ E.l1 = E.wantl1
CbInit == /\ IsCall("cb_init") /\ Frame({E.s}) /\ Sound /\ Own(Obs(E.s), E.n) /\ Step
\* memory of the caller: all of it but for the alignment
CbMake == /\ IsCall("cb_make") /\ Frame({E.s}) /\ Sound /\ E.dl = 0 /\ E.l1 = E.wantl1
          /\ Obs(E.s)[1] = 4 /\ Obs(E.s)[3] = E.n - (LineUp(E.o) - E.o)
          /\ Step
CbSelect == /\ IsCall("cb_select") /\ Sound /\ E.ret = 0
            /\ \E k \in {CbufKind}, new \in {Obs(E.s)} :
               IF k = "W" THEN Frame({E.s}) /\ E.dl = 0 /\ new[1] = 3 /\ new[3] > mem["WK"][1] - mem["WK"][2] - 64
               ELSE IF k = "L" THEN Frame({E.s}) /\ Own(new, mem["CM"][1])
               ELSE /\ Frame({E.s, GOf(E.on)}) /\ new[1] = 2 /\ new[2] = Obs(GOf(E.on))[1] /\ new[3] = Obs(GOf(E.on))[2]
                    /\ Mine(Obs(GOf(E.on))) /\ E.dl = (IF mem[GOf(E.on)][1] = 0 THEN 1 ELSE 0)
            /\ Step
\* only what it owns is given back, once
CbRelease == /\ IsCall("cb_release") /\ Frame({E.s})
             /\ IF mem[E.s][1] = 1 THEN E.dl = -1 /\ Obs(E.s)[1] = 0 ELSE E.dl = 0
             /\ Step
\* blocks of operands in a buffer: apart, inside, lines of their own
CbSetup ==
    /\ IsCall("cb_setup") /\ Unchanged /\ E.dl = 0
    /\ E.MB >= 4 /\ E.NB >= 4 /\ E.MB % 4 = 0 /\ E.NB % 4 = 0 /\ E.KB >= 1 /\ E.rb >= 1
    /\ E.step >= E.KB /\ (E.step * E.p) % 64 = 0
    /\ E.a % 64 = 0 /\ E.b % 64 = 0
    /\ E.a >= 0 /\ E.a + E.step * E.MB * E.p <= E.b
    /\ E.b + E.step * E.NB * E.p <= (IF E.three = 1 THEN E.c ELSE mem[E.s][3])
    /\ IF E.three = 1 THEN E.c % 64 = 0 /\ E.cstep >= E.MB /\ (E.cstep * E.p) % 64 = 0 /\ E.c + E.cstep * E.NB * E.p <= mem[E.s][3] ELSE TRUE
    /\ Step
\* workspace of the configuration
CbWork == IsCall("cb_work") /\ Frame({"WK"}) /\ Obs("WK") = <<E.n, E.o>> /\ Step
CbKept == IsCall("cb_kept") /\ Unchanged /\ E.lost = 0 /\ Step
CbLive == IsCall("cb_live") /\ Unchanged /\ E.live = 0 /\ Step
\* the same operation, at the same time on several threads, into buffers of their own: what it gave alone
CbPar == /\ IsCall("cb_par") /\ Frame({E.Cs[n].b : n \in DOMAIN E.Cs})
         /\ E.bad = 0
         /\ \A n \in DOMAIN E.Cs : Obs(E.Cs[n].b) = mem[E.R.b]
         /\ Step
CbufNext == CbBegin \/ CbThread \/ CbUnthread \/ CbInit \/ CbMake \/ CbSelect \/ CbRelease \/ CbSetup \/ CbWork \/ CbKept \/ CbLive \/ CbPar
=============================================================================
