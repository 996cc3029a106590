----------------------------- MODULE Transient -----------------------------
(* The accelerator with transient worker threads: one shared bounded queue,  *)
(* threads started on demand that leave when they find the queue empty, and  *)
(* reuse of their slots. (src/workers/transient.c, queue.h; transcribed by   *)
(* hand, checked exhaustively by TLC.) Steps between locking and unlocking   *)
(* the queue's mutex are one step; blocking waits are modelled with the set  *)
(* of waiters and may wake up spuriously.                                    *)
(* The defect constants put back behaviour the code had before repairs.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NW, NT, CALLS, QLEN,
          WrongSignal,     \* removal from a full queue signals the readers
          LeaveUnlocked,   \* decision to leave is made without looking at the queue again
          NoJoin           \* stop does not wait for threads
W == 1..NW
T == 1..NT

(* --algorithm transient
variables queue = <<>>, running = [w \in W |-> FALSE], created = [w \in W |-> FALSE], go = [w \in W |-> FALSE],
          nrunning = 0, full = FALSE,          \* the caller waits for room
          live = FALSE, done = [t \in T |-> 0], count = 0, waiting = FALSE, woken = FALSE,
          returned = 0, freed = FALSE, bad = {};

macro touch() begin if ~live then bad := bad \cup {"late"}; end if; end macro;
macro sched() begin if freed then bad := bad \cup {"released"}; end if; end macro;

process worker \in W
variables tk = 0;
begin
w0: await go[self] \/ freed;
    if ~go[self] then goto Done; end if;
w1: sched();
    if queue # <<>> then
      tk := Head(queue); 
      if Len(queue) = QLEN /\ full /\ ~WrongSignal then full := FALSE; end if;
      queue := Tail(queue);
    else
      goto w5;
    end if;
w2: touch(); done[tk] := done[tk] + 1;
w3: touch(); count := count - 1; if count = 0 /\ waiting then woken := TRUE; end if;
    goto w1;
w5: sched();
    if LeaveUnlocked \/ queue = <<>> then
      running[self] := FALSE;
      if ~LeaveUnlocked then nrunning := nrunning - 1; end if;
    else
      goto w1;
    end if;
w6: if LeaveUnlocked then sched(); nrunning := nrunning - 1; end if;
w7: go[self] := FALSE;                        \* the thread has ended
    goto w0;
end process;

process caller = 0
variables k = 1, slot = 0, i = 1;
begin
c0: while returned < CALLS do
      either skip; or goto c9; end either;
  c1: live := TRUE; count := NT; k := 1; done := [t \in T |-> 0];
  c2: while k <= NT do
    c3: if Len(queue) = QLEN then
          full := TRUE;
      c4: await ~full;
          goto c3;
        else
          queue := Append(queue, k);
        end if;
    c5: if nrunning < NW /\ \E w \in W : ~running[w] then
          slot := CHOOSE w \in W : ~running[w] /\ \A v \in W : ~running[v] => w <= v;
          running[slot] := TRUE; nrunning := nrunning + 1;
        else
          slot := 0;
        end if;
    c6: if slot # 0 then
          await ~go[slot];                    \* join of the slot's previous thread
          created[slot] := TRUE; go[slot] := TRUE;
        end if;
    c7: k := k + 1;
      end while;
  c8: if count # 0 then
        waiting := TRUE; woken := FALSE;
    c8a: either await woken; or skip; end either;
         waiting := FALSE;
         goto c8;
      end if;
  c8b: live := FALSE; returned := returned + 1;
      if \E t \in T : done[t] # 1 then bad := bad \cup {"not once"}; end if;
    end while;
c9: if ~NoJoin then await \A w \in W : ~go[w]; end if;
c10: freed := TRUE;
end process;
end algorithm *)
\* BEGIN TRANSLATION (chksum(pcal) = "44aec74a" /\ chksum(tla) = "2041b427")
VARIABLES pc, queue, running, created, go, nrunning, full, live, done, count, 
          waiting, woken, returned, freed, bad, tk, k, slot, i

vars == << pc, queue, running, created, go, nrunning, full, live, done, count, 
           waiting, woken, returned, freed, bad, tk, k, slot, i >>

ProcSet == (W) \cup {0}

Init == (* Global variables *)
        /\ queue = <<>>
        /\ running = [w \in W |-> FALSE]
        /\ created = [w \in W |-> FALSE]
        /\ go = [w \in W |-> FALSE]
        /\ nrunning = 0
        /\ full = FALSE
        /\ live = FALSE
        /\ done = [t \in T |-> 0]
        /\ count = 0
        /\ waiting = FALSE
        /\ woken = FALSE
        /\ returned = 0
        /\ freed = FALSE
        /\ bad = {}
        (* Process worker *)
        /\ tk = [self \in W |-> 0]
        (* Process caller *)
        /\ k = 1
        /\ slot = 0
        /\ i = 1
        /\ pc = [self \in ProcSet |-> CASE self \in W -> "w0"
                                        [] self = 0 -> "c0"]

w0(self) == /\ pc[self] = "w0"
            /\ go[self] \/ freed
            /\ IF ~go[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w1"]
            /\ UNCHANGED << queue, running, created, go, nrunning, full, live, 
                            done, count, waiting, woken, returned, freed, bad, 
                            tk, k, slot, i >>

w1(self) == /\ pc[self] = "w1"
            /\ IF freed
                  THEN /\ bad' = (bad \cup {"released"})
                  ELSE /\ TRUE
                       /\ bad' = bad
            /\ IF queue # <<>>
                  THEN /\ tk' = [tk EXCEPT ![self] = Head(queue)]
                       /\ IF Len(queue) = QLEN /\ full /\ ~WrongSignal
                             THEN /\ full' = FALSE
                             ELSE /\ TRUE
                                  /\ full' = full
                       /\ queue' = Tail(queue)
                       /\ pc' = [pc EXCEPT ![self] = "w2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w5"]
                       /\ UNCHANGED << queue, full, tk >>
            /\ UNCHANGED << running, created, go, nrunning, live, done, count, 
                            waiting, woken, returned, freed, k, slot, i >>

w2(self) == /\ pc[self] = "w2"
            /\ IF ~live
                  THEN /\ bad' = (bad \cup {"late"})
                  ELSE /\ TRUE
                       /\ bad' = bad
            /\ done' = [done EXCEPT ![tk[self]] = done[tk[self]] + 1]
            /\ pc' = [pc EXCEPT ![self] = "w3"]
            /\ UNCHANGED << queue, running, created, go, nrunning, full, live, 
                            count, waiting, woken, returned, freed, tk, k, 
                            slot, i >>

w3(self) == /\ pc[self] = "w3"
            /\ IF ~live
                  THEN /\ bad' = (bad \cup {"late"})
                  ELSE /\ TRUE
                       /\ bad' = bad
            /\ count' = count - 1
            /\ IF count' = 0 /\ waiting
                  THEN /\ woken' = TRUE
                  ELSE /\ TRUE
                       /\ woken' = woken
            /\ pc' = [pc EXCEPT ![self] = "w1"]
            /\ UNCHANGED << queue, running, created, go, nrunning, full, live, 
                            done, waiting, returned, freed, tk, k, slot, i >>

w5(self) == /\ pc[self] = "w5"
            /\ IF freed
                  THEN /\ bad' = (bad \cup {"released"})
                  ELSE /\ TRUE
                       /\ bad' = bad
            /\ IF LeaveUnlocked \/ queue = <<>>
                  THEN /\ running' = [running EXCEPT ![self] = FALSE]
                       /\ IF ~LeaveUnlocked
                             THEN /\ nrunning' = nrunning - 1
                             ELSE /\ TRUE
                                  /\ UNCHANGED nrunning
                       /\ pc' = [pc EXCEPT ![self] = "w6"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w1"]
                       /\ UNCHANGED << running, nrunning >>
            /\ UNCHANGED << queue, created, go, full, live, done, count, 
                            waiting, woken, returned, freed, tk, k, slot, i >>

w6(self) == /\ pc[self] = "w6"
            /\ IF LeaveUnlocked
                  THEN /\ IF freed
                             THEN /\ bad' = (bad \cup {"released"})
                             ELSE /\ TRUE
                                  /\ bad' = bad
                       /\ nrunning' = nrunning - 1
                  ELSE /\ TRUE
                       /\ UNCHANGED << nrunning, bad >>
            /\ pc' = [pc EXCEPT ![self] = "w7"]
            /\ UNCHANGED << queue, running, created, go, full, live, done, 
                            count, waiting, woken, returned, freed, tk, k, 
                            slot, i >>

w7(self) == /\ pc[self] = "w7"
            /\ go' = [go EXCEPT ![self] = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "w0"]
            /\ UNCHANGED << queue, running, created, nrunning, full, live, 
                            done, count, waiting, woken, returned, freed, bad, 
                            tk, k, slot, i >>

worker(self) == w0(self) \/ w1(self) \/ w2(self) \/ w3(self) \/ w5(self)
                   \/ w6(self) \/ w7(self)

c0 == /\ pc[0] = "c0"
      /\ IF returned < CALLS
            THEN /\ \/ /\ TRUE
                       /\ pc' = [pc EXCEPT ![0] = "c1"]
                    \/ /\ pc' = [pc EXCEPT ![0] = "c9"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "c9"]
      /\ UNCHANGED << queue, running, created, go, nrunning, full, live, done, 
                      count, waiting, woken, returned, freed, bad, tk, k, slot, 
                      i >>

c1 == /\ pc[0] = "c1"
      /\ live' = TRUE
      /\ count' = NT
      /\ k' = 1
      /\ done' = [t \in T |-> 0]
      /\ pc' = [pc EXCEPT ![0] = "c2"]
      /\ UNCHANGED << queue, running, created, go, nrunning, full, waiting, 
                      woken, returned, freed, bad, tk, slot, i >>

c2 == /\ pc[0] = "c2"
      /\ IF k <= NT
            THEN /\ pc' = [pc EXCEPT ![0] = "c3"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "c8"]
      /\ UNCHANGED << queue, running, created, go, nrunning, full, live, done, 
                      count, waiting, woken, returned, freed, bad, tk, k, slot, 
                      i >>

c3 == /\ pc[0] = "c3"
      /\ IF Len(queue) = QLEN
            THEN /\ full' = TRUE
                 /\ pc' = [pc EXCEPT ![0] = "c4"]
                 /\ queue' = queue
            ELSE /\ queue' = Append(queue, k)
                 /\ pc' = [pc EXCEPT ![0] = "c5"]
                 /\ full' = full
      /\ UNCHANGED << running, created, go, nrunning, live, done, count, 
                      waiting, woken, returned, freed, bad, tk, k, slot, i >>

c4 == /\ pc[0] = "c4"
      /\ ~full
      /\ pc' = [pc EXCEPT ![0] = "c3"]
      /\ UNCHANGED << queue, running, created, go, nrunning, full, live, done, 
                      count, waiting, woken, returned, freed, bad, tk, k, slot, 
                      i >>

c5 == /\ pc[0] = "c5"
      /\ IF nrunning < NW /\ \E w \in W : ~running[w]
            THEN /\ slot' = (CHOOSE w \in W : ~running[w] /\ \A v \in W : ~running[v] => w <= v)
                 /\ running' = [running EXCEPT ![slot'] = TRUE]
                 /\ nrunning' = nrunning + 1
            ELSE /\ slot' = 0
                 /\ UNCHANGED << running, nrunning >>
      /\ pc' = [pc EXCEPT ![0] = "c6"]
      /\ UNCHANGED << queue, created, go, full, live, done, count, waiting, 
                      woken, returned, freed, bad, tk, k, i >>

c6 == /\ pc[0] = "c6"
      /\ IF slot # 0
            THEN /\ ~go[slot]
                 /\ created' = [created EXCEPT ![slot] = TRUE]
                 /\ go' = [go EXCEPT ![slot] = TRUE]
            ELSE /\ TRUE
                 /\ UNCHANGED << created, go >>
      /\ pc' = [pc EXCEPT ![0] = "c7"]
      /\ UNCHANGED << queue, running, nrunning, full, live, done, count, 
                      waiting, woken, returned, freed, bad, tk, k, slot, i >>

c7 == /\ pc[0] = "c7"
      /\ k' = k + 1
      /\ pc' = [pc EXCEPT ![0] = "c2"]
      /\ UNCHANGED << queue, running, created, go, nrunning, full, live, done, 
                      count, waiting, woken, returned, freed, bad, tk, slot, i >>

c8 == /\ pc[0] = "c8"
      /\ IF count # 0
            THEN /\ waiting' = TRUE
                 /\ woken' = FALSE
                 /\ pc' = [pc EXCEPT ![0] = "c8a"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "c8b"]
                 /\ UNCHANGED << waiting, woken >>
      /\ UNCHANGED << queue, running, created, go, nrunning, full, live, done, 
                      count, returned, freed, bad, tk, k, slot, i >>

c8a == /\ pc[0] = "c8a"
       /\ \/ /\ woken
          \/ /\ TRUE
       /\ waiting' = FALSE
       /\ pc' = [pc EXCEPT ![0] = "c8"]
       /\ UNCHANGED << queue, running, created, go, nrunning, full, live, done, 
                       count, woken, returned, freed, bad, tk, k, slot, i >>

c8b == /\ pc[0] = "c8b"
       /\ live' = FALSE
       /\ returned' = returned + 1
       /\ IF \E t \in T : done[t] # 1
             THEN /\ bad' = (bad \cup {"not once"})
             ELSE /\ TRUE
                  /\ bad' = bad
       /\ pc' = [pc EXCEPT ![0] = "c0"]
       /\ UNCHANGED << queue, running, created, go, nrunning, full, done, 
                       count, waiting, woken, freed, tk, k, slot, i >>

c9 == /\ pc[0] = "c9"
      /\ IF ~NoJoin
            THEN /\ \A w \in W : ~go[w]
            ELSE /\ TRUE
      /\ pc' = [pc EXCEPT ![0] = "c10"]
      /\ UNCHANGED << queue, running, created, go, nrunning, full, live, done, 
                      count, waiting, woken, returned, freed, bad, tk, k, slot, 
                      i >>

c10 == /\ pc[0] = "c10"
       /\ freed' = TRUE
       /\ pc' = [pc EXCEPT ![0] = "Done"]
       /\ UNCHANGED << queue, running, created, go, nrunning, full, live, done, 
                       count, waiting, woken, returned, bad, tk, k, slot, i >>

caller == c0 \/ c1 \/ c2 \/ c3 \/ c4 \/ c5 \/ c6 \/ c7 \/ c8 \/ c8a \/ c8b
             \/ c9 \/ c10

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == caller
           \/ (\E self \in W: worker(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
NothingBad == bad = {}
Fair == Spec /\ SF_vars(caller) /\ \A w \in W : SF_vars(worker(w))
Returns == <>(pc[0] = "Done")
\* after release no thread is left
AllGone == pc[0] = "Done" => \A w \in W : ~go[w]
Proto == INSTANCE Proto WITH calls <- returned, open <- live, exec <- done, gone <- (pc[0] = "Done")
Refines == Proto!Spec
=============================================================================
