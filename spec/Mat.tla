--------------------------------- MODULE Mat ---------------------------------
(***************************************************************************)
(* Vectors (sequences of rationals) and matrices (sequences of rows).      *)
(* TLCEval forces function values that TLC would otherwise recompute.      *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, TLC

VZero(n) == TLCEval([i \in 1..n |-> R0])
VOnes(n) == TLCEval([i \in 1..n |-> R1])
VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> RAdd(u[i], v[i])])
VSub(u, v) == TLCEval([i \in 1..Len(u) |-> RSub(u[i], v[i])])
VScale(a, u) == TLCEval([i \in 1..Len(u) |-> RMul(a, u[i])])
VNeg(u) == TLCEval([i \in 1..Len(u) |-> RNeg(u[i])])
VRound(u) == TLCEval([i \in 1..Len(u) |-> Round(u[i])])
VUnit(n, k) == TLCEval([i \in 1..n |-> IF i = k THEN R1 ELSE R0])

Rows(M) == Len(M)
Cols(M) == IF M = <<>> THEN 0 ELSE Len(M[1])
MZero(n, m) == TLCEval([i \in 1..n |-> [j \in 1..m |-> R0]])
MId(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R1 ELSE R0]])
MDiag(v) == TLCEval([i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE R0]])
MTr(M) == TLCEval([j \in 1..Cols(M) |-> [i \in 1..Rows(M) |-> M[i][j]]])
MAdd(A, C) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RAdd(A[i][j], C[i][j])]])
MSub(A, C) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RSub(A[i][j], C[i][j])]])
MScale(a, M) == TLCEval([i \in 1..Rows(M) |-> [j \in 1..Cols(M) |-> RMul(a, M[i][j])]])
MRound(M) == TLCEval([i \in 1..Rows(M) |-> [j \in 1..Cols(M) |-> Round(M[i][j])]])
MVec(M, v) == TLCEval([i \in 1..Rows(M) |-> RDot(M[i], v)])
(* M * Transpose(N): the rows of both are at hand *)
MMulT(M, N) == TLCEval([i \in 1..Rows(M) |-> [j \in 1..Rows(N) |-> RDot(M[i], N[j])]])
MMul(M, N) == Bind(MTr(N), LAMBDA X : MMulT(M, X))
MGram(M) == MMulT(M, M)                                       \* M M^T
MSandwich(A, P) == Bind(MMul(A, P), LAMBDA X : MMulT(X, A))                    \* A P A^T
MTrace(M) == RSum([i \in 1..Rows(M) |-> M[i][i]])
Outer(u, v) == TLCEval([i \in 1..Len(u) |-> [j \in 1..Len(v) |-> RMul(u[i], v[j])]])
Frob(M, N) == RSum([i \in 1..Rows(M) |-> RDot(M[i], N[i])])   \* sum of M_ij N_ij

(* Kronecker product and block diagonal *)
Kron(M, N) ==
    LET r == Rows(N) c == Cols(N)
    IN  TLCEval([i \in 1..(Rows(M) * r) |-> [j \in 1..(Cols(M) * c) |->
            RMul(M[((i - 1) \div r) + 1][((j - 1) \div c) + 1],
                 N[((i - 1) % r) + 1][((j - 1) % c) + 1])]])
BlockDiag2(M, N) ==
    LET r == Rows(M) c == Cols(M)
    IN  TLCEval([i \in 1..(r + Rows(N)) |-> [j \in 1..(c + Cols(N)) |->
            IF i <= r /\ j <= c THEN M[i][j]
            ELSE IF i > r /\ j > c THEN N[i - r][j - c] ELSE R0]])
Cat(u, v) == u \o v

(* ------------------------- solving A X = C ---------------------------- *)
(* Gauss-Jordan on the rows of the augmented matrix, first non-zero pivot. *)
RECURSIVE PivotRow(_, _, _)
PivotRow(M, k, i) == IF i > Rows(M) THEN 0
                     ELSE IF ~RIsZero(M[i][k]) THEN i ELSE PivotRow(M, k, i + 1)
RECURSIVE Eliminate(_, _, _)
Eliminate(A, k, n) == Bind(A, LAMBDA M :
    IF k > n THEN M
    ELSE LET p == PivotRow(M, k, k)
         IN  IF p = 0 THEN <<>>                                 \* singular
             ELSE Bind(VScale(RDiv(R1, M[p][k]), M[p]), LAMBDA prow :
                      Eliminate([i \in 1..Rows(M) |->
                          IF i = k THEN prow
                          ELSE LET r == IF i = p THEN M[k] ELSE M[i]
                               IN  IF RIsZero(r[k]) THEN r
                                   ELSE VRound(VSub(r, VScale(r[k], prow)))], k + 1, n)))
(* <<>> when A is singular *)
MSolve(A, C) ==
    LET n == Rows(A)
    IN  Bind(Eliminate([i \in 1..n |-> A[i] \o C[i]], 1, n), LAMBDA M :
             IF M = <<>> THEN <<>> ELSE TLCEval([i \in 1..n |-> SubSeq(M[i], n + 1, n + Cols(C))]))
MInv(A) == MSolve(A, MId(Rows(A)))
VSolve(A, c) == Bind(MSolve(A, [i \in 1..Len(c) |-> <<c[i]>>]),
                     LAMBDA X : TLCEval([i \in 1..Len(X) |-> X[i][1]]))

(* positive semi-definiteness by symmetric elimination (exact) *)
RECURSIVE PsdFrom(_, _)
PsdFrom(A, k) == Bind(A, LAMBDA M :
    IF k > Rows(M) THEN TRUE
    ELSE IF M[k][k][1] < 0 THEN FALSE
    ELSE IF M[k][k][1] = 0
         THEN (\A j \in 1..Rows(M) : j > k => M[k][j][1] = 0) /\ PsdFrom(M, k + 1)
    ELSE PsdFrom([i \in 1..Rows(M) |->
                    IF i <= k THEN M[i]
                    ELSE VSub(M[i], VScale(RDiv(M[i][k], M[k][k]), M[k]))], k + 1))
IsPsd(M) == PsdFrom(M, 1)
IsSym(M) == \A i, j \in 1..Rows(M) : M[i][j] = M[j][i]

(* ---------------------- matrix exponential ---------------------------- *)
RECURSIVE MaxFrom(_, _, _)
MaxFrom(v, i, acc) == Bind(acc, LAMBDA a : IF i > Len(v) THEN a ELSE MaxFrom(v, i + 1, RMax(a, v[i])))
MNormMax(M) == MaxFrom(TLCEval([i \in 1..Rows(M) |-> RSum([j \in 1..Cols(M) |-> RAbs(M[i][j])])]), 1, R0)
(* I + M/n (I + M/(n+1) (...)) *)
RECURSIVE MExpHorner(_, _)
MExpHorner(M, n) ==
    IF n > 30 THEN MId(Rows(M))
    ELSE Bind(MExpHorner(M, n + 1), LAMBDA E : MRound(MAdd(MId(Rows(M)), MScale(RQ(1, n), MMul(M, E)))))
RECURSIVE MExp(_)
MExp(A) == Bind(A, LAMBDA M : IF RLe(MNormMax(M), RHalf) THEN MExpHorner(M, 1)
                              ELSE Bind(MExp(MScale(RHalf, M)), LAMBDA E : MRound(MMul(E, E))))

(* ---------------- observed against exact values ------------------------ *)
IsVec(v, n) == Len(v) = n
IsMat(M, n, m) == Len(M) = n /\ \A i \in 1..n : Len(M[i]) = m
VNear(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(v) : Near(u[i], v[i], tol)
VMax(v) == MaxFrom(TLCEval([i \in 1..Len(v) |-> RAbs(v[i])]), 1, R0)
MMax(M) == MaxFrom(TLCEval([i \in 1..Len(M) |-> VMax(M[i])]), 1, R0)
(* entrywise, relative to the largest entry of the exact matrix *)
MNearRel(M, N, tol) ==
    LET s == MMax(N)
    IN  Len(M) = Len(N) /\ \A i \in 1..Len(N) : Len(M[i]) = Len(N[i])
          /\ \A j \in 1..Len(N[i]) : NearS(M[i][j], N[i][j], tol, s)
MNear(M, N, tol) == Len(M) = Len(N) /\ \A i \in 1..Len(N) : VNear(M[i], N[i], tol)
VFinite(v) == \A i \in 1..Len(v) : Finite(v[i])
MFinite(M) == \A i \in 1..Len(M) : VFinite(M[i])
=============================================================================
