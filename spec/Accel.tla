-------------------------------- MODULE Accel --------------------------------
(* Accelerators as seen by a caller. Operations that are dispatched to an    *)
(* accelerator are those of Blas3: the actions there do not mention it.      *)
(* What the threads do below this interface is in Workers.tla and            *)
(* Transient.tla.                                                            *)
EXTENDS Svd

AcKnown == {"SIMPLE", "simple", "Simple", "WORKERS", "workers", "W", "TRANSIENT", "transient", "T", "S", "w", "t", "s"}
AcInit == /\ IsCall("ac_init") /\ Unchanged
          /\ IF HasKey("kind") /\ E.kind \in AcKnown THEN E.ret = 0 ELSE E.ret < 0
          /\ Step
\* the caller is elsewhere: threads of the library neither write operands nor use memory that was given back
AcQuiesce == /\ IsCall("ac_quiesce") /\ Unchanged /\ E.ret = 0 /\ E.late = 0
             /\ Step
\* no thread and no memory of the accelerator remains
AcRelease == /\ IsCall("ac_release") /\ Unchanged /\ E.ret = 0 /\ E.live = 0 /\ E.late = 0 /\ E.held = 0
             /\ Step
AccelNext == AcInit \/ AcQuiesce \/ AcRelease
=============================================================================
