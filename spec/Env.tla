--------------------------------- MODULE Env ---------------------------------
(* The environment variables: what each string denotes. Strings are          *)
(* sequences of character codes; a variable that is not set is the absent    *)
(* key. Fields that are empty, zero, negative or no numbers are invalid and  *)
(* leave the default. For fields that are numbers with trailing characters,  *)
(* or beyond the range of numbers here, any usable value is accepted.        *)
EXTENDS Accel, SequencesExt

\* fields of s between the separators
Fields(s, sep) ==
    LET cut == {0} \cup {i \in DOMAIN s : s[i] = sep} \cup {Len(s) + 1}
        seq == SetToSortSeq(cut, LAMBDA a, b : a < b)
    IN  [k \in 1..(Len(seq) - 1) |-> SubSeq(s, seq[k] + 1, seq[k + 1] - 1)]
Field(fs, k) == IF k <= Len(fs) THEN fs[k] ELSE <<>>
Digit(c) == c >= 48 /\ c <= 57
\* decimal numbers of at most 9 digits
AllDigits(f) == Len(f) > 0 /\ \A i \in DOMAIN f : Digit(f[i])
IsNum(f) == AllDigits(f) /\ Len(f) <= 9
NumOf(f) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, f)
\* cannot denote a positive number: empty, or starting with something other than digit, sign or space
Blank(c) == c \in {32, 9, 10, 11, 12, 13}
NoNum(f) == IF f = <<>> THEN TRUE ELSE ~Digit(f[1]) /\ f[1] # 43 /\ ~Blank(f[1])
IsZero(f) == AllDigits(f) /\ \A i \in DOMAIN f : f[i] = 48
\* field f read as a number that must be at least lo gives v; d is the default
Reads(f, v, d, lo) == IF IsNum(f) THEN v = (IF NumOf(f) >= lo THEN NumOf(f) ELSE d)
                      ELSE IF NoNum(f) \/ IsZero(f) THEN v = d
                      ELSE v >= lo
\* sizes: decimal with optional multiplier, at most 64M here
KMult(c) == CASE c \in {75, 107} -> 1024 [] c \in {77, 109} -> 1024 * 1024 [] OTHER -> 0
Body(f) == IF Len(f) > 1 /\ KMult(f[Len(f)]) > 0 THEN SubSeq(f, 1, Len(f) - 1) ELSE f
KUnit(f) == IF Len(f) > 1 /\ KMult(f[Len(f)]) > 0 THEN KMult(f[Len(f)]) ELSE 1
IsSize(f) == /\ IsNum(Body(f)) /\ (Body(f)[1] # 48 \/ IsZero(Body(f)))
             /\ NumOf(Body(f)) <= 67108864 \div KUnit(f)
SizeReads(f, v, d, lo) == IF IsSize(f) THEN v = (IF NumOf(Body(f)) = 0 THEN d ELSE (IF NumOf(Body(f)) * KUnit(f) < lo THEN lo ELSE NumOf(Body(f)) * KUnit(f)))
                          ELSE IF NoNum(f) THEN v = d
                          ELSE v >= lo

EnvCall(op) == IsCall(op) /\ E.same = 1 /\ Unchanged /\ E.ret = 0 /\ Step
Var(k) == IF k \in DOMAIN E THEN E[k] ELSE <<>>
GetEnv ==
    /\ EnvCall("getenv")
    /\ \E f \in {Fields(Var("cfg"), 44)} : \E c \in {Fields(Var("cache"), 44)} :
       /\ Reads(Field(f, 1), E.mb, 64, 1) /\ Reads(Field(f, 2), E.nb, 64, 1) /\ Reads(Field(f, 3), E.kb, 160, 1)
       /\ Reads(Field(f, 4), E.lb, 64, 1)
       /\ Reads(Field(f, 5), E.b1, 1024, 2) /\ Reads(Field(f, 6), E.b2, 256, 2)
       /\ IF Len(f) <= 7 THEN E.fixed = (IF Field(f, 7) # <<>> /\ Field(f, 7)[1] \in {89, 121} THEN 1 ELSE 0) ELSE TRUE
       /\ SizeReads(Field(c, 1), E.cmem, 262144, 4096) /\ SizeReads(Field(c, 2), E.l1mem, 32768, 1024)

\* ---- accelerators ----
\* a policy: layout, assignment, number of candidates
UpC(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Policy(f, blocked, tiled, rr, rnd, two) ==
    LET l == IF f # <<>> /\ UpC(f[1]) \in {66, 84} THEN UpC(f[1]) ELSE 0
        g == IF l # 0 THEN Tail(f) ELSE f
        a == IF l # 0 /\ g # <<>> /\ UpC(g[1]) \in {82, 90} THEN UpC(g[1]) ELSE 0
        h == IF a # 0 THEN Tail(g) ELSE g
    IN  IF h = <<>> \/ h = <<50>>
        THEN /\ blocked = (IF l = 66 THEN 1 ELSE 0) /\ tiled = (IF l = 84 THEN 1 ELSE 0)
             /\ rr = (IF a = 82 THEN 1 ELSE 0) /\ rnd = (IF a = 90 THEN 1 ELSE 0)
             /\ two = (IF h = <<50>> THEN 1 ELSE 0)
        ELSE TRUE
\* processors: N, K-L, K-L/S, 0xMASK, K:0xMASK
HexV(c) == IF Digit(c) THEN c - 48 ELSE IF UpC(c) >= 65 /\ UpC(c) <= 70 THEN UpC(c) - 55 ELSE -1
IsMask(f) == /\ Len(f) >= 3 /\ Len(f) <= 18 /\ f[1] = 48 /\ f[2] \in {120, 88}
             /\ \A i \in 3..Len(f) : HexV(f[i]) >= 0
MaskSet(f) == {b \in 0..(4 * (Len(f) - 2) - 1) : (HexV(f[Len(f) - b \div 4]) \div 2 ^ (b % 4)) % 2 = 1}
Find(f, c) == IF \E i \in DOMAIN f : f[i] = c THEN Min({i \in DOMAIN f : f[i] = c}) ELSE 0
LeftS(f, i) == SubSeq(f, 1, i - 1)
RightS(f, i) == SubSeq(f, i + 1, Len(f))
IsOff(f) == LET p == Find(f, 58) IN IF p = 0 THEN FALSE ELSE IsNum(LeftS(f, p)) /\ IsMask(RightS(f, p))
IsRange(f) == LET p == Find(f, 45) s == Find(f, 47)
              IN  IF p = 0 THEN FALSE
                  ELSE IF s = 0 THEN IsNum(LeftS(f, p)) /\ IsNum(RightS(f, p))
                  ELSE IF s < p THEN FALSE
                  ELSE IsNum(LeftS(f, p)) /\ IsNum(SubSeq(f, p + 1, s - 1)) /\ IsNum(RightS(f, s)) /\ ~IsZero(RightS(f, s))
IsCpu(f) == IsNum(f) \/ IsMask(f) \/ IsOff(f) \/ IsRange(f)
CpuSet(f, np) ==
    IF IsNum(f) THEN {NumOf(f)} \cap 0..(np - 1)
    ELSE IF IsMask(f) THEN MaskSet(f) \cap 0..(np - 1)
    ELSE IF IsOff(f) THEN LET p == Find(f, 58) o == NumOf(LeftS(f, p))
                          IN  {c \in 0..(np - 1) : c - o \in MaskSet(RightS(f, p))}
    ELSE LET p == Find(f, 45) s == Find(f, 47)
             lo == NumOf(LeftS(f, p)) hi == NumOf(IF s = 0 THEN RightS(f, p) ELSE SubSeq(f, p + 1, s - 1))
             st == IF s = 0 THEN 1 ELSE NumOf(RightS(f, s))
         IN  {c \in 0..(np - 1) : c >= lo /\ c <= hi /\ (c - lo) % st = 0}
GetAcEnv ==
    /\ EnvCall("getacenv")
    /\ \E f \in {Fields(Var("ac"), 44)} : \E cpus \in {{E.cpus[i] : i \in DOMAIN E.cpus}} :
       /\ Reads(Field(f, 1), E.items, 160000, 1)
       /\ IF IsNum(Field(f, 2)) THEN E.cores = (IF NumOf(Field(f, 2)) \in 1..E.np THEN NumOf(Field(f, 2)) ELSE E.np)
          ELSE IF NoNum(Field(f, 2)) THEN E.cores = E.np
          ELSE E.cores \in 1..E.np
       /\ Policy(Field(f, 3), E.blocked, E.tiled, E.rr, E.rnd, E.two)
       /\ cpus \subseteq 0..(E.np - 1)
       /\ \E spec \in {{f[i] : i \in 4..Len(f)}} :
          /\ \A x \in spec : IF IsCpu(x) THEN CpuSet(x, E.np) \subseteq cpus ELSE TRUE
          /\ IF \A x \in spec : IsCpu(x) \/ x = <<>> THEN \A c \in cpus : \E x \in spec : IF IsCpu(x) THEN c \in CpuSet(x, E.np) ELSE FALSE
             ELSE TRUE
\* workers are pinned to selected processors only, and are if there are any
Pins == /\ EnvCall("pins")
        /\ \E sel \in {{E.sel[i] : i \in DOMAIN E.sel}} : \E pins \in {{E.pins[i] : i \in DOMAIN E.pins}} :
           /\ pins \subseteq sel
           /\ Cardinality(pins) = Min({Cardinality(sel), E.cores})
EnvNext == GetEnv \/ GetAcEnv \/ Pins
=============================================================================
