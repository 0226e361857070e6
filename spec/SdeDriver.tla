------------------------------ MODULE SdeDriver ------------------------------
(***************************************************************************)
(* The driver of the random ODE method.  On the k-th of N steps of length  *)
(* delta it draws the coefficients of the Brownian approximation with one  *)
(* key, hands the random ODE of that step and another key to an ODE        *)
(* integrator over [0, delta] (local time), and records the state.         *)
(*   pr    the problem: drift, sigma (polynomial fields), delta, n, m      *)
(*         inner steps, x0                                                 *)
(*   k     steps completed     j  inner steps of the step in progress      *)
(*   x     current state       c  coefficients of the step in progress     *)
(*   traj  recorded states     log  coefficients of the completed steps    *)
(*   used  keys consumed, in the free algebra of key splitting             *)
(***************************************************************************)
EXTENDS Brownian, FiniteSets

VARIABLES pr, k, pc, j, x, c, traj, log, used
vars == <<pr, k, pc, j, x, c, traj, log, used>>

Dim == Len(pr.x0)
Time(i) == RMul(RInt(i), pr.delta)
InnerH == RDiv(pr.delta, RInt(pr.m))

(* free key algebra: the i-th of the n children of a key *)
Child(key, n, i) == <<key, n, i>>
Root0 == <<"root">>
StepKey(i) == Child(Root0, pr.n, i)
BmKey(i) == Child(StepKey(i), 2, 1)
SampleKey(i) == Child(StepKey(i), 2, 2)

(* Draw: the coefficients cc become the Brownian approximation of step k+1 *)
Draw(cc) ==
    /\ pc = "draw" /\ k < pr.n
    /\ c' = cc /\ j' = 0 /\ pc' = "ode"
    /\ used' = Append(used, BmKey(k + 1))
    /\ UNCHANGED <<pr, k, x, traj, log>>

Field == StepField(pr.drift, pr.sigma, Dim, Time(k), pr.delta, "parabola", c)

(* one inner (explicit Euler) step at local time j h *)
Inner ==
    /\ pc = "ode" /\ j < pr.m
    /\ x' = VAdd(x, VScale(InnerH, FEval(Field, x, RMul(RInt(j), InnerH))))
    /\ j' = j + 1
    /\ UNCHANGED <<pr, k, pc, c, traj, log, used>>

Emit ==
    /\ pc = "ode" /\ j = pr.m
    /\ traj' = Append(traj, x) /\ log' = Append(log, c) /\ k' = k + 1
    /\ used' = Append(used, SampleKey(k + 1))
    /\ pc' = "draw" /\ UNCHANGED <<pr, j, x, c>>

(* ------------------------------ properties ------------------------------ *)
(* one recorded state per completed step and the initial one, each where   *)
(* its predecessor ended                                                   *)
Grid == /\ Len(traj) = k + 1 /\ Len(log) = k /\ traj[1] = pr.x0
        /\ pc = "draw" => traj[k + 1] = x
        /\ k <= pr.n

(* The hierarchical solution is Euler's method on the global grid of n m    *)
(* points, with absolute time: written without local times or step fields.  *)
GlobalRate(xx, i) ==
    LET g  == i \div pr.m                       \* step index
        u  == RDiv(RInt(i % pr.m), RInt(pr.m))  \* local time / delta
        cc == log[g + 1]
        t  == RMul(RInt(i), InnerH)
        w  == [r \in 1..Len(cc[1]) |->
                 RDiv(RAdd(cc[1][r], RMul(RMul(Sqrt6, cc[2][r]), RSub(R1, RMul(R2, u)))), pr.delta)]
    IN  VAdd(FEval(pr.drift, xx, t), MVec(MFEval(pr.sigma, xx, t), w))
RECURSIVE Flat(_, _, _)
Flat(xx, i, n) == IF i = n THEN xx ELSE Flat(TLCEval(VAdd(xx, VScale(InnerH, GlobalRate(xx, i)))), i + 1, n)
FlatAgrees == pc = "draw" => Flat(pr.x0, 0, k * pr.m) = x

(* without drift and with constant diffusion, the state at a grid point    *)
(* differs from x0 by sigma applied to the increments and the Euler error  *)
(* of the parabola, which vanishes in the limit and telescopes:            *)
(*   sum_j h W'(j h) = a + sqrt(6) b / m                                   *)
Telescopes ==
    (pc = "draw" /\ \A i \in 1..Dim : pr.drift[i] = <<>> /\ \A q \in 1..Len(pr.sigma[i]) :
        \A mm \in 1..Len(pr.sigma[i][q]) : \A v \in 1..(Dim + 1) : pr.sigma[i][q][mm].e[v] = 0)
    => LET inc == [q \in 1..Len(pr.sigma[1]) |->
                     RSum([g \in 1..k |-> RAdd(log[g][1][q], RDiv(RMul(Sqrt6, log[g][2][q]), RInt(pr.m)))])]
           sg == MFEval(pr.sigma, pr.x0, R0)
       IN  x = VAdd(pr.x0, MVec(sg, inc))

(* no key is consumed twice *)
KeysOnce == \A a, b \in 1..Len(used) : a # b => used[a] # used[b]

(* the record of the past never changes *)
AppendOnly == [][SubSeq(traj', 1, Len(traj)) = traj /\ SubSeq(log', 1, Len(log)) = log]_vars
=============================================================================
