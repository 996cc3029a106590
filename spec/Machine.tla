------------------------------- MODULE Machine -------------------------------
(* The library as a state machine over a memory of named buffers.            *)
(* A trace file holds independent cases; each case is a sequence of events   *)
(*   [k |-> "load", b, d]   create buffer b with contents d                  *)
(*   [k |-> "call", op, arguments, ret, err, out]                            *)
(* where out maps the buffers whose bits changed to their new contents.      *)
(* A case is accepted iff every event is explained by an action.             *)
EXTENDS Mat, Json, IOUtils

VARIABLES cs, ix, mem
mvars == <<cs, ix, mem>>

Cases == ndJsonDeserialize(IOEnv.TRACE)

Ev == Cases[cs].ev
E == Ev[ix + 1]
More == ix < Len(Ev)

MachineInit == cs \in 1..Len(Cases) /\ ix = 0 /\ mem = <<>>

Load == /\ More /\ E.k = "load"
        /\ mem' = (E.b :> E.d) @@ mem
        /\ ix' = ix + 1 /\ UNCHANGED cs

Finish == /\ ix = Len(Ev) /\ ix' = ix + 1
          /\ PrintT(<<"ACC", Cases[cs].id>>)
          /\ UNCHANGED <<cs, mem>>
Stutter == ix = Len(Ev) + 1 /\ UNCHANGED mvars

\* ---- events --------------------------------------------------------------
HasKey(k) == k \in DOMAIN E
\* explicit workspace: the size query succeeds and leaves the operands alone; the call proper
\* stays inside the area of the queried size and gives it back
WorkOk == IF HasKey("wsz") THEN /\ E.wq = 0 /\ E.wsz >= 0 /\ E.wdirty = 0
                                /\ E.wover = 0 /\ E.wused = 0 /\ E.wkeep = 1
          ELSE TRUE
\* which cache buffer an operation works in: of its thread, of the workspace given, or one for the occasion
CbufKind == IF IF "WK" \in DOMAIN mem THEN mem["WK"][1] > 0 /\ mem["WK"][1] - mem["WK"][2] >= mem["CM"][1] ELSE FALSE THEN "W"
            ELSE IF HasKey("of") THEN IF \E i \in DOMAIN E.of : E.of[i] = "CBUF_LOCAL" THEN "L" ELSE "T"
            ELSE "T"
\* observed: threads whose buffer was written (bits), whether the workspace was, memory not given back
CbufOk == IF HasKey("leak")
          THEN /\ E.leak = 0
               /\ E.tbuf \in (IF CbufKind = "T" THEN {0, 2 ^ E.t} ELSE {0})
               /\ IF E.wbuf = 1 THEN CbufKind = "W" ELSE TRUE
          ELSE TRUE
IsCall(op) == /\ More /\ E.k = "call" /\ E.op = op
              /\ ~HasKey("crash") /\ ~HasKey("guard") /\ ~HasKey("probe") /\ WorkOk /\ CbufOk
Fl == {E.fl[i] : i \in DOMAIN E.fl}
Has(f) == \E i \in DOMAIN E.fl : E.fl[i] = f

\* contents of buffer b after the call, as observed
Obs(b) == IF b \in DOMAIN E.out THEN E.out[b] ELSE mem[b]
ObsMem == [b \in DOMAIN mem |-> Obs(b)]

Good == E.ret = 0 /\ E.err = 0
Bad == E.ret < 0 /\ E.err > 0
\* only the buffers in W may have changed
Frame(W) == \A b \in DOMAIN E.out : b \in W
Unchanged == Frame({})

\* Buffer of view v is updated to f(i,j) at the view's elements satisfying in(i,j),
\* everything else in that buffer keeps its value.
Updated(v, in(_, _), f(_, _)) ==
    \E old \in {mem[v.b]}, new \in {Obs(v.b)} :
        \A p \in 1..Len(old) :
            LET q == p - 1 - v.o
                j == q \div v.s
                i == q % v.s
            IN  new[p] = IF q >= 0 /\ j < v.c /\ i < v.r /\ in(i, j)
                         THEN f(i, j) ELSE old[p]
\* as Updated, but only says that the elements outside the mask are untouched
Untouched(v, in(_, _)) ==
    \E old \in {mem[v.b]}, new \in {Obs(v.b)} :
        \A p \in 1..Len(old) :
            LET q == p - 1 - v.o
                j == q \div v.s
                i == q % v.s
            IN  IF q >= 0 /\ j < v.c /\ i < v.r /\ in(i, j) THEN TRUE ELSE new[p] = old[p]
\* vector view version: x(i) is the new value of element i
UpdatedV(v, f(_)) ==
    \E old \in {mem[v.b]}, new \in {Obs(v.b)}, st \in {IF v.r = 1 THEN v.s ELSE 1}, n \in {VLen(v)} :
        \A p \in 1..Len(old) :
            LET q == p - 1 - v.o
                k == q \div st
            IN  new[p] = IF q >= 0 /\ q % st = 0 /\ k < n THEN f(k) ELSE old[p]
All(i, j) == TRUE

Step == ix' = ix + 1 /\ mem' = ObsMem /\ UNCHANGED cs
\* the call had to be refused / was a no-op
Refused == Bad /\ Unchanged /\ Step
Noop == Good /\ Unchanged /\ Step
=============================================================================
