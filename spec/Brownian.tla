------------------------------ MODULE Brownian ------------------------------
(***************************************************************************)
(* Piecewise polynomial approximations of Brownian motion on one step of   *)
(* length dt, one vector of coefficients per degree of freedom.            *)
(*   "parabola"  W(t) = a u + sqrt(6) b u (1 - u),  u = t / dt             *)
(*   "power"     W(t) = sum_r c_r t^r  (a user supplied approximation)     *)
(***************************************************************************)
EXTENDS Poly

Sqrt6 == Root(RInt(6))

(* value of the parabola at local time t, one coordinate *)
Parab(t, dt, a, b) ==
    LET u == RDiv(t, dt)
    IN  RAdd(RMul(a, u), RMul(RMul(Sqrt6, b), RMul(u, RSub(R1, u))))
ParabD(t, dt, a, b) ==
    LET u == RDiv(t, dt)
    IN  RDiv(RAdd(a, RMul(RMul(Sqrt6, b), RSub(R1, RMul(R2, u)))), dt)
(* integral of the parabola from 0 to t *)
ParabI(t, dt, a, b) ==
    LET u == RDiv(t, dt)
    IN  RMul(dt, RAdd(RMul(RMul(a, RHalf), RMul(u, u)),
                      RMul(RMul(Sqrt6, b), RSub(RMul(RHalf, RMul(u, u)), RDiv(RPow(u, 3), RInt(3))))))

(* derivative of the approximation as a field of the local time: one       *)
(* polynomial per Brownian coordinate, in d state variables and t          *)
BmRate(kind, c, dt, d) ==
    IF kind = "parabola"
    THEN LET s == RMul(Sqrt6, RDiv(R1, dt))
         IN  TLCEval([i \in 1..Len(c[1]) |->
                PAffT(RAdd(RDiv(c[1][i], dt), RMul(s, c[2][i])),
                      RNeg(RDiv(RMul(RMul(R2, s), c[2][i]), dt)), d)])
    ELSE LET z == [i \in 1..(d + 1) |-> 0]
         IN  TLCEval([i \in 1..Len(c[1]) |->
                [r \in 1..Len(c) |-> [c |-> RMul(RInt(r), c[r][i]), e |-> [z EXCEPT ![d + 1] = r - 1]]]])
(* the random ODE's vector field on the step that starts at time tk, as a  *)
(* field of the state and the local time:                                  *)
(*     drift(x, tk + t) + sigma(x, tk + t) W'(t)                           *)
StepField(drift, sigma, d, tk, dt, kind, c) ==
    FAdd(FShift(drift, d, tk), MFMul(MFShift(sigma, d, tk), BmRate(kind, c, dt, d)))
=============================================================================
