------------------------------ MODULE ItoStrat ------------------------------
(***************************************************************************)
(* The drift of an SDE under its two interpretations.  An SDE is a drift   *)
(* field, a diffusion field and the calculus it is to be read in; the      *)
(* conversions move between the two readings of one and the same process.  *)
(***************************************************************************)
EXTENDS Poly

(* sum_{j,k} sigma_jk  d sigma_ik / dx_j : the drift correction            *)
Correction(sigma, d) ==
    TLCEval([i \in 1..d |->
        PSumAll([n \in 1..(d * Len(sigma[1])) |->
            LET j == ((n - 1) % d) + 1
                k == ((n - 1) \div d) + 1
            IN  PMul(sigma[j][k], PD(sigma[i][k], j))], 1)])
HalfOf(f) == TLCEval([i \in 1..Len(f) |-> PScale(RHalf, f[i])])
MinusHalfOf(f) == TLCEval([i \in 1..Len(f) |-> PScale(RNeg(RHalf), f[i])])
StratDrift(drift, sigma) == FAdd(drift, MinusHalfOf(Correction(sigma, Len(drift))))
ItoDrift(drift, sigma) == FAdd(drift, HalfOf(Correction(sigma, Len(drift))))

(* The generator applied to a test function g at (x, t): the law of the    *)
(* process, in either calculus.                                            *)
(*   Ito:          a . grad g + 1/2 tr(sigma sigma^T Hess g)                *)
(*   Stratonovich: a . grad g + 1/2 sum_k sigma_k . grad (sigma_k . grad g) *)
Column(sigma, k) == [i \in 1..Len(sigma) |-> sigma[i][k]]
Directional(f, g, d) == PSumAll([i \in 1..d |-> PMul(f[i], PD(g, i))], 1)
GenIto(drift, sigma, g, x, t) ==
    LET d == Len(drift)
    IN  RAdd(PEval(Directional(drift, g, d), x, t),
             RMul(RHalf, Frob(MGram(MFEval(sigma, x, t)), HessEval(g, x, t))))
GenStrat(drift, sigma, g, x, t) ==
    LET d == Len(drift)
    IN  RAdd(PEval(Directional(drift, g, d), x, t),
             RMul(RHalf, RSum([k \in 1..Len(sigma[1]) |->
                PEval(Directional(Column(sigma, k), Directional(Column(sigma, k), g, d), d), x, t)])))
=============================================================================
