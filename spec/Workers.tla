------------------------------ MODULE Workers ------------------------------
(* The accelerator with persistent workers, at the level of its threads:     *)
(* one caller, a bounded queue for each worker, tasks offered to one or two  *)
(* workers, a completion counter, shutdown. (src/workers/workers.c, gemm.c,  *)
(* counter.h, queue.h; transcribed by hand, checked exhaustively by TLC.)    *)
(* Queue operations are atomic: they are done under the queue's mutex, and   *)
(* both sides poll with time limits, so that no wakeup has to be received.   *)
(* The defect constants put back behaviour the code had before repairs;      *)
(* with any of them TLC must report a violation (see check_C10).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NW, NT, CALLS, QLEN, TWO,
          WaitOnce,        \* counter wait without a loop
          SpinRefs,        \* references to tasks are looked at once only
          RunInThread,     \* running flag set by the thread itself
          StopAlways       \* stop joins workers that were never started
W == 1..NW
T == 1..NT
NoTask == 0

(* --algorithm workers
variables queue = [w \in W |-> <<>>], running = [w \in W |-> FALSE], created = [w \in W |-> FALSE],
          status = 0,
          live = FALSE,                       \* the task array is allocated
          wid = [t \in T |-> 0], wcnt = [t \in T |-> 0],
          done = [t \in T |-> 0],             \* history: executions in this call
          count = 0, lock = 0, waiting = FALSE, woken = FALSE,
          returned = 0, freed = FALSE, bad = {};

macro touch() begin if ~live then bad := bad \cup {"late"}; end if; end macro;
macro put(w, x) begin await Len(queue[w]) < QLEN; queue[w] := Append(queue[w], x); end macro;

process worker \in W
variables tk = 0, got = 0;
begin
w0: await created[self] \/ freed;
    if ~created[self] then goto Done; end if;
w1: if RunInThread then running[self] := TRUE; end if;
w2: if ~running[self] then goto w9; end if;
w3: await queue[self] # <<>>;
    tk := Head(queue[self]); queue[self] := Tail(queue[self]);
    if tk = NoTask then goto w2; end if;
w4: touch();
    if wid[tk] = 0 then wid[tk] := self; got := 1; else got := 0; end if;
w5: touch();
    wcnt[tk] := wcnt[tk] - 1;
    if got = 0 then goto w2; end if;
w6: touch(); done[tk] := done[tk] + 1;
w7: touch();
    await lock = 0; lock := self;
w8: count := count - 1;
    if count = 0 /\ waiting then woken := TRUE; end if;
    lock := 0;
    goto w2;
w9: skip;
end process;

process caller = 0
variables k = 1, i = 1, a = 1;
begin
c0: while returned < CALLS do
      either skip; or goto c9; end either;     \* release after any number of operations
  c1: live := TRUE; count := NT; k := 1;
      wid := [t \in T |-> 0] || wcnt := [t \in T |-> 0] || done := [t \in T |-> 0];
  c2: while k <= NT do
        if status = 0 then
          i := 1;
      c3: while i <= NW do
            if ~RunInThread then running[i] := TRUE; end if;
        c4: created[i] := TRUE; i := i + 1;
          end while;
          status := 1;
        end if;
    c5: if TWO /\ NW > 1 then
          wcnt[k] := 2;
      c5a: with w \in W do a := w; put(w, k); end with;
      c5b: with w \in W \ {a} do put(w, k); end with;
        else
          wcnt[k] := 1;
      c5c: with w \in W do put(w, k); end with;
        end if;
    c5d: k := k + 1;
      end while;
  c6: await lock = 0; lock := 99;
  c6a: if count # 0 then waiting := TRUE; woken := FALSE; lock := 0;
  c6b:   either await woken; or skip; end either;        \* signal or spurious wakeup
  c6c:   await lock = 0; lock := 99; waiting := FALSE;
         if ~WaitOnce then goto c6a; end if;
       end if;
  c6d: lock := 0;
  c7: if ~SpinRefs then await \A t \in T : wcnt[t] = 0; end if;
  c8: live := FALSE; returned := returned + 1;
      if \E t \in T : done[t] # 1 then bad := bad \cup {"not once"}; end if;
    end while;
c9: if status = 0 /\ ~StopAlways then goto c12; end if;
c9a: i := 1;
c10: while i <= NW do
       running[i] := FALSE;
  c10a: put(i, NoTask); i := i + 1;
     end while;
     i := 1;
c11: while i <= NW do
       if pc[i] = "w0" /\ ~created[i] then bad := bad \cup {"join of no thread"}; end if;
  c11a: await pc[i] = "Done" \/ bad # {}; i := i + 1;
     end while;
c12: freed := TRUE;
end process;
end algorithm *)
\* BEGIN TRANSLATION (chksum(pcal) = "d7516d" /\ chksum(tla) = "4c58faca")
VARIABLES pc, queue, running, created, status, live, wid, wcnt, done, count, 
          lock, waiting, woken, returned, freed, bad, tk, got, k, i, a

vars == << pc, queue, running, created, status, live, wid, wcnt, done, count, 
           lock, waiting, woken, returned, freed, bad, tk, got, k, i, a >>

ProcSet == (W) \cup {0}

Init == (* Global variables *)
        /\ queue = [w \in W |-> <<>>]
        /\ running = [w \in W |-> FALSE]
        /\ created = [w \in W |-> FALSE]
        /\ status = 0
        /\ live = FALSE
        /\ wid = [t \in T |-> 0]
        /\ wcnt = [t \in T |-> 0]
        /\ done = [t \in T |-> 0]
        /\ count = 0
        /\ lock = 0
        /\ waiting = FALSE
        /\ woken = FALSE
        /\ returned = 0
        /\ freed = FALSE
        /\ bad = {}
        (* Process worker *)
        /\ tk = [self \in W |-> 0]
        /\ got = [self \in W |-> 0]
        (* Process caller *)
        /\ k = 1
        /\ i = 1
        /\ a = 1
        /\ pc = [self \in ProcSet |-> CASE self \in W -> "w0"
                                        [] self = 0 -> "c0"]

w0(self) == /\ pc[self] = "w0"
            /\ created[self] \/ freed
            /\ IF ~created[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w1"]
            /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, 
                            done, count, lock, waiting, woken, returned, freed, 
                            bad, tk, got, k, i, a >>

w1(self) == /\ pc[self] = "w1"
            /\ IF RunInThread
                  THEN /\ running' = [running EXCEPT ![self] = TRUE]
                  ELSE /\ TRUE
                       /\ UNCHANGED running
            /\ pc' = [pc EXCEPT ![self] = "w2"]
            /\ UNCHANGED << queue, created, status, live, wid, wcnt, done, 
                            count, lock, waiting, woken, returned, freed, bad, 
                            tk, got, k, i, a >>

w2(self) == /\ pc[self] = "w2"
            /\ IF ~running[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "w9"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w3"]
            /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, 
                            done, count, lock, waiting, woken, returned, freed, 
                            bad, tk, got, k, i, a >>

w3(self) == /\ pc[self] = "w3"
            /\ queue[self] # <<>>
            /\ tk' = [tk EXCEPT ![self] = Head(queue[self])]
            /\ queue' = [queue EXCEPT ![self] = Tail(queue[self])]
            /\ IF tk'[self] = NoTask
                  THEN /\ pc' = [pc EXCEPT ![self] = "w2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w4"]
            /\ UNCHANGED << running, created, status, live, wid, wcnt, done, 
                            count, lock, waiting, woken, returned, freed, bad, 
                            got, k, i, a >>

w4(self) == /\ pc[self] = "w4"
            /\ IF ~live
                  THEN /\ bad' = (bad \cup {"late"})
                  ELSE /\ TRUE
                       /\ bad' = bad
            /\ IF wid[tk[self]] = 0
                  THEN /\ wid' = [wid EXCEPT ![tk[self]] = self]
                       /\ got' = [got EXCEPT ![self] = 1]
                  ELSE /\ got' = [got EXCEPT ![self] = 0]
                       /\ wid' = wid
            /\ pc' = [pc EXCEPT ![self] = "w5"]
            /\ UNCHANGED << queue, running, created, status, live, wcnt, done, 
                            count, lock, waiting, woken, returned, freed, tk, 
                            k, i, a >>

w5(self) == /\ pc[self] = "w5"
            /\ IF ~live
                  THEN /\ bad' = (bad \cup {"late"})
                  ELSE /\ TRUE
                       /\ bad' = bad
            /\ wcnt' = [wcnt EXCEPT ![tk[self]] = wcnt[tk[self]] - 1]
            /\ IF got[self] = 0
                  THEN /\ pc' = [pc EXCEPT ![self] = "w2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w6"]
            /\ UNCHANGED << queue, running, created, status, live, wid, done, 
                            count, lock, waiting, woken, returned, freed, tk, 
                            got, k, i, a >>

w6(self) == /\ pc[self] = "w6"
            /\ IF ~live
                  THEN /\ bad' = (bad \cup {"late"})
                  ELSE /\ TRUE
                       /\ bad' = bad
            /\ done' = [done EXCEPT ![tk[self]] = done[tk[self]] + 1]
            /\ pc' = [pc EXCEPT ![self] = "w7"]
            /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, 
                            count, lock, waiting, woken, returned, freed, tk, 
                            got, k, i, a >>

w7(self) == /\ pc[self] = "w7"
            /\ IF ~live
                  THEN /\ bad' = (bad \cup {"late"})
                  ELSE /\ TRUE
                       /\ bad' = bad
            /\ lock = 0
            /\ lock' = self
            /\ pc' = [pc EXCEPT ![self] = "w8"]
            /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, 
                            done, count, waiting, woken, returned, freed, tk, 
                            got, k, i, a >>

w8(self) == /\ pc[self] = "w8"
            /\ count' = count - 1
            /\ IF count' = 0 /\ waiting
                  THEN /\ woken' = TRUE
                  ELSE /\ TRUE
                       /\ woken' = woken
            /\ lock' = 0
            /\ pc' = [pc EXCEPT ![self] = "w2"]
            /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, 
                            done, waiting, returned, freed, bad, tk, got, k, i, 
                            a >>

w9(self) == /\ pc[self] = "w9"
            /\ TRUE
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, 
                            done, count, lock, waiting, woken, returned, freed, 
                            bad, tk, got, k, i, a >>

worker(self) == w0(self) \/ w1(self) \/ w2(self) \/ w3(self) \/ w4(self)
                   \/ w5(self) \/ w6(self) \/ w7(self) \/ w8(self)
                   \/ w9(self)

c0 == /\ pc[0] = "c0"
      /\ IF returned < CALLS
            THEN /\ \/ /\ TRUE
                       /\ pc' = [pc EXCEPT ![0] = "c1"]
                    \/ /\ pc' = [pc EXCEPT ![0] = "c9"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "c9"]
      /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                      count, lock, waiting, woken, returned, freed, bad, tk, 
                      got, k, i, a >>

c1 == /\ pc[0] = "c1"
      /\ live' = TRUE
      /\ count' = NT
      /\ k' = 1
      /\ /\ done' = [t \in T |-> 0]
         /\ wcnt' = [t \in T |-> 0]
         /\ wid' = [t \in T |-> 0]
      /\ pc' = [pc EXCEPT ![0] = "c2"]
      /\ UNCHANGED << queue, running, created, status, lock, waiting, woken, 
                      returned, freed, bad, tk, got, i, a >>

c2 == /\ pc[0] = "c2"
      /\ IF k <= NT
            THEN /\ IF status = 0
                       THEN /\ i' = 1
                            /\ pc' = [pc EXCEPT ![0] = "c3"]
                       ELSE /\ pc' = [pc EXCEPT ![0] = "c5"]
                            /\ i' = i
            ELSE /\ pc' = [pc EXCEPT ![0] = "c6"]
                 /\ i' = i
      /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                      count, lock, waiting, woken, returned, freed, bad, tk, 
                      got, k, a >>

c5 == /\ pc[0] = "c5"
      /\ IF TWO /\ NW > 1
            THEN /\ wcnt' = [wcnt EXCEPT ![k] = 2]
                 /\ pc' = [pc EXCEPT ![0] = "c5a"]
            ELSE /\ wcnt' = [wcnt EXCEPT ![k] = 1]
                 /\ pc' = [pc EXCEPT ![0] = "c5c"]
      /\ UNCHANGED << queue, running, created, status, live, wid, done, count, 
                      lock, waiting, woken, returned, freed, bad, tk, got, k, 
                      i, a >>

c5a == /\ pc[0] = "c5a"
       /\ \E w \in W:
            /\ a' = w
            /\ Len(queue[w]) < QLEN
            /\ queue' = [queue EXCEPT ![w] = Append(queue[w], k)]
       /\ pc' = [pc EXCEPT ![0] = "c5b"]
       /\ UNCHANGED << running, created, status, live, wid, wcnt, done, count, 
                       lock, waiting, woken, returned, freed, bad, tk, got, k, 
                       i >>

c5b == /\ pc[0] = "c5b"
       /\ \E w \in W \ {a}:
            /\ Len(queue[w]) < QLEN
            /\ queue' = [queue EXCEPT ![w] = Append(queue[w], k)]
       /\ pc' = [pc EXCEPT ![0] = "c5d"]
       /\ UNCHANGED << running, created, status, live, wid, wcnt, done, count, 
                       lock, waiting, woken, returned, freed, bad, tk, got, k, 
                       i, a >>

c5c == /\ pc[0] = "c5c"
       /\ \E w \in W:
            /\ Len(queue[w]) < QLEN
            /\ queue' = [queue EXCEPT ![w] = Append(queue[w], k)]
       /\ pc' = [pc EXCEPT ![0] = "c5d"]
       /\ UNCHANGED << running, created, status, live, wid, wcnt, done, count, 
                       lock, waiting, woken, returned, freed, bad, tk, got, k, 
                       i, a >>

c5d == /\ pc[0] = "c5d"
       /\ k' = k + 1
       /\ pc' = [pc EXCEPT ![0] = "c2"]
       /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                       count, lock, waiting, woken, returned, freed, bad, tk, 
                       got, i, a >>

c3 == /\ pc[0] = "c3"
      /\ IF i <= NW
            THEN /\ IF ~RunInThread
                       THEN /\ running' = [running EXCEPT ![i] = TRUE]
                       ELSE /\ TRUE
                            /\ UNCHANGED running
                 /\ pc' = [pc EXCEPT ![0] = "c4"]
                 /\ UNCHANGED status
            ELSE /\ status' = 1
                 /\ pc' = [pc EXCEPT ![0] = "c5"]
                 /\ UNCHANGED running
      /\ UNCHANGED << queue, created, live, wid, wcnt, done, count, lock, 
                      waiting, woken, returned, freed, bad, tk, got, k, i, a >>

c4 == /\ pc[0] = "c4"
      /\ created' = [created EXCEPT ![i] = TRUE]
      /\ i' = i + 1
      /\ pc' = [pc EXCEPT ![0] = "c3"]
      /\ UNCHANGED << queue, running, status, live, wid, wcnt, done, count, 
                      lock, waiting, woken, returned, freed, bad, tk, got, k, 
                      a >>

c6 == /\ pc[0] = "c6"
      /\ lock = 0
      /\ lock' = 99
      /\ pc' = [pc EXCEPT ![0] = "c6a"]
      /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                      count, waiting, woken, returned, freed, bad, tk, got, k, 
                      i, a >>

c6a == /\ pc[0] = "c6a"
       /\ IF count # 0
             THEN /\ waiting' = TRUE
                  /\ woken' = FALSE
                  /\ lock' = 0
                  /\ pc' = [pc EXCEPT ![0] = "c6b"]
             ELSE /\ pc' = [pc EXCEPT ![0] = "c6d"]
                  /\ UNCHANGED << lock, waiting, woken >>
       /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                       count, returned, freed, bad, tk, got, k, i, a >>

c6b == /\ pc[0] = "c6b"
       /\ \/ /\ woken
          \/ /\ TRUE
       /\ pc' = [pc EXCEPT ![0] = "c6c"]
       /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                       count, lock, waiting, woken, returned, freed, bad, tk, 
                       got, k, i, a >>

c6c == /\ pc[0] = "c6c"
       /\ lock = 0
       /\ lock' = 99
       /\ waiting' = FALSE
       /\ IF ~WaitOnce
             THEN /\ pc' = [pc EXCEPT ![0] = "c6a"]
             ELSE /\ pc' = [pc EXCEPT ![0] = "c6d"]
       /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                       count, woken, returned, freed, bad, tk, got, k, i, a >>

c6d == /\ pc[0] = "c6d"
       /\ lock' = 0
       /\ pc' = [pc EXCEPT ![0] = "c7"]
       /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                       count, waiting, woken, returned, freed, bad, tk, got, k, 
                       i, a >>

c7 == /\ pc[0] = "c7"
      /\ IF ~SpinRefs
            THEN /\ \A t \in T : wcnt[t] = 0
            ELSE /\ TRUE
      /\ pc' = [pc EXCEPT ![0] = "c8"]
      /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                      count, lock, waiting, woken, returned, freed, bad, tk, 
                      got, k, i, a >>

c8 == /\ pc[0] = "c8"
      /\ live' = FALSE
      /\ returned' = returned + 1
      /\ IF \E t \in T : done[t] # 1
            THEN /\ bad' = (bad \cup {"not once"})
            ELSE /\ TRUE
                 /\ bad' = bad
      /\ pc' = [pc EXCEPT ![0] = "c0"]
      /\ UNCHANGED << queue, running, created, status, wid, wcnt, done, count, 
                      lock, waiting, woken, freed, tk, got, k, i, a >>

c9 == /\ pc[0] = "c9"
      /\ IF status = 0 /\ ~StopAlways
            THEN /\ pc' = [pc EXCEPT ![0] = "c12"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "c9a"]
      /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                      count, lock, waiting, woken, returned, freed, bad, tk, 
                      got, k, i, a >>

c9a == /\ pc[0] = "c9a"
       /\ i' = 1
       /\ pc' = [pc EXCEPT ![0] = "c10"]
       /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                       count, lock, waiting, woken, returned, freed, bad, tk, 
                       got, k, a >>

c10 == /\ pc[0] = "c10"
       /\ IF i <= NW
             THEN /\ running' = [running EXCEPT ![i] = FALSE]
                  /\ pc' = [pc EXCEPT ![0] = "c10a"]
                  /\ i' = i
             ELSE /\ i' = 1
                  /\ pc' = [pc EXCEPT ![0] = "c11"]
                  /\ UNCHANGED running
       /\ UNCHANGED << queue, created, status, live, wid, wcnt, done, count, 
                       lock, waiting, woken, returned, freed, bad, tk, got, k, 
                       a >>

c10a == /\ pc[0] = "c10a"
        /\ Len(queue[i]) < QLEN
        /\ queue' = [queue EXCEPT ![i] = Append(queue[i], NoTask)]
        /\ i' = i + 1
        /\ pc' = [pc EXCEPT ![0] = "c10"]
        /\ UNCHANGED << running, created, status, live, wid, wcnt, done, count, 
                        lock, waiting, woken, returned, freed, bad, tk, got, k, 
                        a >>

c11 == /\ pc[0] = "c11"
       /\ IF i <= NW
             THEN /\ IF pc[i] = "w0" /\ ~created[i]
                        THEN /\ bad' = (bad \cup {"join of no thread"})
                        ELSE /\ TRUE
                             /\ bad' = bad
                  /\ pc' = [pc EXCEPT ![0] = "c11a"]
             ELSE /\ pc' = [pc EXCEPT ![0] = "c12"]
                  /\ bad' = bad
       /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                       count, lock, waiting, woken, returned, freed, tk, got, 
                       k, i, a >>

c11a == /\ pc[0] = "c11a"
        /\ pc[i] = "Done" \/ bad # {}
        /\ i' = i + 1
        /\ pc' = [pc EXCEPT ![0] = "c11"]
        /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                        count, lock, waiting, woken, returned, freed, bad, tk, 
                        got, k, a >>

c12 == /\ pc[0] = "c12"
       /\ freed' = TRUE
       /\ pc' = [pc EXCEPT ![0] = "Done"]
       /\ UNCHANGED << queue, running, created, status, live, wid, wcnt, done, 
                       count, lock, waiting, woken, returned, bad, tk, got, k, 
                       i, a >>

caller == c0 \/ c1 \/ c2 \/ c5 \/ c5a \/ c5b \/ c5c \/ c5d \/ c3 \/ c4
             \/ c6 \/ c6a \/ c6b \/ c6c \/ c6d \/ c7 \/ c8 \/ c9 \/ c9a
             \/ c10 \/ c10a \/ c11 \/ c11a \/ c12

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == caller
           \/ (\E self \in W: worker(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
NothingBad == bad = {}
Fair == Spec /\ SF_vars(caller) /\ \A w \in W : SF_vars(worker(w))
Returns == <>(pc[0] = "Done")
\* after release no worker is left and no task is lost
AllGone == pc[0] = "Done" => \A w \in W : pc[w] \in {"Done", "w0"}
\* what the caller sees
Proto == INSTANCE Proto WITH calls <- returned, open <- live, exec <- done, gone <- (pc[0] = "Done")
Refines == Proto!Spec
=============================================================================
