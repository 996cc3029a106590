----------------------------- MODULE ArmasTrace -----------------------------
(* The complete machine: every action of every part.                         *)
EXTENDS Ext

Init == MachineInit
Next == Load \/ Finish \/ Poison("poison") \/ Blas3Next \/ Blas2Next \/ Blas1Next \/ PivotNext \/ LuNext \/ CholNext \/ LdlNext \/ QrNext \/ ReduNext \/ ElemNext \/ SvdNext \/ EigNext \/ AccelNext \/ EnvNext \/ ErrNext \/ WorkNext \/ DenseNext \/ CbufNext \/ SparseNext \/ IterNext \/ StreamNext \/ CompatNext \/ ExtNext
Spec == Init /\ [][Next]_mvars
\* strict mode (confirmation of a rejection): a case that is not accepted deadlocks
SNext == Next \/ Stutter
=============================================================================
