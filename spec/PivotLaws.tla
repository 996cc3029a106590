----------------------------- MODULE PivotLaws -----------------------------
(* Laws of pivot application, decided for every pivot vector of every size   *)
(* up to N: it is a permutation, and backward application undoes forward     *)
(* application (pivot vector as long as the matrix).                         *)
EXTENDS Pivot
CONSTANT N
VARIABLE p, n
vars == <<p, n, mvars>>
LInit == /\ n \in 0..N /\ p \in [1..n -> 0..n] /\ cs = 0 /\ ix = 0 /\ mem = <<>>
LNext == UNCHANGED vars
Compose(s, t) == [i \in DOMAIN s |-> s[t[i]]]   \* first s then t
IsPerm == {PivSrc(p, n, FALSE)[i] : i \in Rng(n)} = Rng(n)
UndoesRows == /\ Compose(PivSrc(p, n, FALSE), PivSrc(p, n, TRUE)) = Ident(n)
              /\ Compose(PivSrc(p, n, TRUE), PivSrc(p, n, FALSE)) = Ident(n)
\* symmetric application keeps symmetry and equals row then column application
Mat0 == [i \in Rng(n) |-> [j \in Rng(n) |-> Max2(i, j) * 10 + Min2(i, j)]]
SymOk == LET s == PivSrc(p, n, FALSE)
         IN  \A i, j \in Rng(n) : Mat0[s[i]][s[j]] = Mat0[s[j]][s[i]]
=============================================================================
