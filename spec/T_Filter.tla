------------------------------- MODULE T_Filter -------------------------------
(***************************************************************************)
(* Results of the Gaussian filters and solvers.  The filter of the trace's  *)
(* problem runs as silent steps of the specification; the events compare    *)
(* what the code returned with its state.                                   *)
(* H.fam: "core" (a filter given by its matrices), "ivp", "marg", or "none" *)
(***************************************************************************)
EXTENDS OdeFilter, Law, TraceBase

Prior(q, d) == IF H.prior = "ibm" THEN Ibm(q, H.h, d) ELSE [A |-> H.A, Q |-> H.Q, xi |-> H.xi]
G0 == CASE H.fam = "core" -> [m |-> H.m, P |-> H.P]
        [] H.fam = "ivp" /\ H.init = "fresh" -> InitFresh(H.f, H.y0, H.n)
        [] H.fam = "ivp" /\ H.init = "mix" -> InitMixture(H.f, H.y0, H.P0, H.ekf0)
        [] H.fam = "ivp" /\ H.init = "given" -> [m |-> H.y0, P |-> H.P0]
        [] H.fam = "marg" -> InitMarg(H.b, H.sg, H.y0, H.delta)
        [] OTHER -> [m |-> <<>>, P |-> <<>>]
Pr0 == CASE H.fam = "core" -> [A |-> H.A, Q |-> H.Q, xi |-> H.xi, R |-> H.R, obs |-> H.obs,
                               jac |-> Jac(H.obs, Len(H.m)), mask |-> {}]
         [] H.fam = "ivp" -> Ivp(H.f, H.d, H.n, Prior(H.n - 1, H.d), H.R, H.ekf0)
         [] H.fam = "marg" -> Marg(H.b, H.sg, H.d, H.delta, Prior(1, 1), H.R, H.ekf0)
         [] OTHER -> <<>>
Ts == IF H.fam = "core" THEN H.ts ELSE IF H.fam = "none" THEN <<>> ELSE Times(H.h, H.N)
Us == IF H.fam = "core" THEN H.us ELSE Ones(Len(Ts))

Setup == [ph |-> "run", k |-> 0, pr |-> Pr0, ts |-> Ts, us |-> Us, sc |-> R1, kap |-> R1,
          m |-> G0.m, P |-> G0.P, S |-> <<>>, z |-> <<>>, ok |-> TRUE]
(* the worst condition of the updates seen so far, cond(S) |S^-1| |P|: an    *)
(* update in floating point loses that factor, so the tolerance grows with  *)
(* it once it exceeds 10^5 (the generated problems rarely do); so it does   *)
(* with the size of means that blow up, and rounding errors with them       *)
Kappa(S, sc) == Bind(MInv(S), LAMBDA X :
                  IF X = <<>> THEN R1
                  ELSE RMul(RMul(MMax(S), MMax(X)), RMax(R1, RMul(sc, MMax(X)))))
(* in single precision from 100                                             *)
FTol == RMul(Tol, RMax(R1, RMul(IF "single" \in DOMAIN H THEN RQ(1, 100) ELSE RQ(1, 100000), s.kap)))

Begin == /\ s.ph = "new" /\ Silent(Setup)
Step == /\ s.ph = "run" /\ s.k < Len(s.ts) /\ s.ok
        /\ LET r == FilterStep([m |-> s.m, P |-> s.P], s.pr, s.ts[s.k + 1], s.us[s.k + 1])
               sc == MMax(Predict([m |-> s.m, P |-> s.P], s.pr.A, s.pr.Q, s.pr.xi).P)
           IN  Silent([s EXCEPT !.k = @ + 1, !.m = r.m, !.P = r.P, !.S = r.S, !.z = r.z, !.ok = r.ok, !.sc = sc,
                                !.kap = IF r.ok THEN RMax(RMax(s.kap, VMax(r.m)), Kappa(r.S, sc)) ELSE s.kap])
(* conditioning on a degenerate observation is undefined: nothing is required *)
Undefined == s.ph = "run" /\ ~s.ok /\ l' = Len(T.ev) + 1 /\ UNCHANGED <<tr, s, bad>> /\ Report
Ready == s.ph = "run" /\ s.ok /\ s.k = Len(s.ts)

(* ------------------------------- clauses ------------------------------- *)
MeanC(m, ref) == Chk("MeanShape", Len(m) = Len(ref)) \cup Chk("Mean", VNear(m, ref, FTol))
MatNear(M, N, sc) == Len(M) = Len(N) /\ \A i \in 1..Len(N) : Len(M[i]) = Len(N[i])
                     /\ \A j \in 1..Len(N[i]) : NearS(M[i][j], N[i][j], FTol, sc)
CovC(M, N, sc) == Chk("Covariance", MatNear(M, N, sc))
PsdC(M, sc) == IF ~MFinite(M) \/ ~(\A i \in 1..Len(M) : Len(M[i]) = Len(M)) THEN {"NotFinite"}
               ELSE Chk("Symmetric", MatNear(M, MTr(M), sc))
                    \cup Chk("Psd", LET Y == MScale(RHalf, MAdd(M, MTr(M)))
                                    IN  IsPsd(MAdd(Y, MScale(RMul(FTol, sc), MId(Len(M))))))
GramOf(L) == IF MFinite(L) THEN MGram(L) ELSE L

Moments == /\ Is("Moments") /\ Ready
           /\ Consume(MeanC(Ev.m, s.m) \cup CovC(Ev.P, s.P, s.sc) \cup PsdC(Ev.P, s.sc), s)
Factor == /\ Is("Factor") /\ Ready
          /\ Consume(MeanC(Ev.m, s.m) \cup CovC(GramOf(Ev.L), s.P, s.sc), s)
Innovation == /\ Is("Innovation") /\ Ready
              /\ Consume(Chk("Innovation", VNear(Ev.z, s.z, FTol))
                         \cup Chk("InnovationCovariance", MatNear(Ev.S, s.S, MMax(s.S))), s)
(* the mean of variable Ev.j of every coordinate *)
Mean == /\ Is("Mean") /\ Ready /\ Consume(MeanC(Ev.y, Sel(s.m, Ev.n, Ev.j)), s)
Mixture == /\ Is("Mixture") /\ Ready
           /\ Consume(MeanC(Ev.m, Sel(s.m, 2, 0)) \cup CovC(Ev.P, SelM(s.P, 2, 0), s.sc)
                      \cup Chk("SampleIsMean", Ev.keyed \/ VNear(Ev.s, Ev.m, FTol))
                      \cup Chk("SampleShape", Len(Ev.s) = Len(s.m) \div 2 /\ VFinite(Ev.s)), s)
Full == /\ Is("Full") /\ Ready
        /\ Consume(MeanC(Ev.m, s.m) \cup CovC(Ev.P, s.P, s.sc)
                   \cup Chk("SampleIsMean", Ev.keyed \/ VNear(Ev.s, Ev.m, FTol)), s)
(* n samples of the variables Ev.sel of the filtered law *)
LawEv == /\ Is("Law") /\ Ready
         /\ LET mu == [i \in 1..Len(Ev.sel) |-> s.m[Ev.sel[i]]]
                Sg == [i \in 1..Len(Ev.sel) |-> [j \in 1..Len(Ev.sel) |-> s.P[Ev.sel[i]][Ev.sel[j]]]]
            IN  Consume(LawClauses(Ev, mu, Sg), s)
(* the same problem filtered in the two forms *)
Pair == /\ Is("Pair") /\ Ready
        /\ Consume(Chk("SqrtMean", VNear(Ev.m2, Ev.m1, FTol))
                   \cup Chk("SqrtCovariance", MFinite(Ev.P1) /\ MatNear(IF Ev.gram THEN GramOf(Ev.P2) ELSE Ev.P2, Ev.P1,
                                                                       IF Ev.gram THEN s.sc ELSE RMax(s.sc, MMax(Ev.P1)))), s)
Equal == /\ Is("Equal") /\ Consume(Chk(Ev.what, VNear(Ev.u, Ev.v, FTol)), s)

(* --------------------- single predictions and updates ------------------- *)
Pred1 == /\ Is("Predict") /\ Ready
         /\ LET r == Predict([m |-> Ev.m, P |-> Ev.P], Ev.A, Ev.Q, Ev.xi)
            IN  Consume(MeanC(Ev.m2, r.m) \cup CovC(Ev.P2, r.P, MMax(r.P)), s)
Upd1 == /\ Is("Update") /\ Ready
        /\ LET r == Update([m |-> Ev.m, P |-> Ev.P], Ev.c, Ev.Hm, Ev.R)
               sc == MMax(Ev.P)
           IN  Consume(IF ~r.ok THEN {}
                       ELSE MeanC(Ev.m2, r.m) \cup CovC(Ev.P2, r.P, sc) \cup PsdC(Ev.P2, sc)
                            \cup Chk("InnovationCovariance", MatNear(Ev.S, r.S, MMax(r.S)))
                            \cup Chk("Grows", MFinite(Ev.P2) /\ IsPsd(MAdd(MSub(Ev.P, MScale(RHalf, MAdd(Ev.P2, MTr(Ev.P2)))),
                                                        MScale(RMul(Tol, sc), MId(Len(Ev.P)))))), s)
(* ------------------------------ calibration ----------------------------- *)
MleEv == /\ Is("Mle") /\ Consume(Chk("Mle", Near(Ev.v, Mle(Ev.zs, Ev.Ss), Tol)), s)

(* -------------------------------- layout -------------------------------- *)
Inter == /\ Is("Interlace") /\ Consume(Chk("Interlace", Ev.out = Interlace(Ev.vs)), s)
InterMEv == /\ Is("InterlaceMatrix") /\ Consume(Chk("InterlaceMatrix", Ev.out = InterlaceM(Ev.Bs)), s)
(* a solve of an uncoupled problem against the solves of its coordinates    *)
Dec == /\ Is("Decoupled") /\ Ready
       /\ LET n == Ev.n d == Len(Ev.parts)
              mOk == Len(Ev.m) = n * d /\ \A i \in 1..d : Len(Ev.parts[i].m) = n
                        /\ \A a \in 1..n : Near(Ev.m[Ix(n, i, a - 1)], Ev.parts[i].m[a], FTol)
              sc == LET RECURSIVE Mx(_, _) Mx(i, acc) == IF i > d THEN acc ELSE Mx(i + 1, RMax(acc, MMax(Ev.parts[i].P)))
                    IN  RMax(Mx(1, R0), s.sc)
              POk == \A i, j \in 1..d : \A a, b \in 1..n :
                        NearS(Ev.P[Ix(n, i, a - 1)][Ix(n, j, b - 1)], IF i = j THEN Ev.parts[i].P[a][b] ELSE R0, FTol, sc)
          IN  Consume(Chk("DecoupledMean", mOk) \cup (IF Ev.P = <<>> THEN {} ELSE Chk("DecoupledCovariance", mOk /\ POk)), s)
(* perm[i]: the coordinate of the first problem that is the i-th of the second *)
Permuted == /\ Is("Permuted") /\ Ready
            /\ LET n == Ev.n d == Len(Ev.perm)
                   ix(r) == Ix(n, Ev.perm[((r - 1) \div n) + 1], (r - 1) % n)
               IN  Consume(Chk("PermutedMean", Len(Ev.m2) = n * d /\ \A r \in 1..(n * d) : Near(Ev.m2[r], Ev.m1[ix(r)], FTol))
                           \cup (IF Ev.P1 = <<>> THEN {} ELSE
                                 Chk("PermutedCovariance", \A r, q \in 1..(n * d) :
                                        NearS(Ev.P2[r][q], Ev.P1[ix(r)][ix(q)], FTol, s.sc))), s)

Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = [ph |-> "new"] /\ bad = {}
Next == /\ l <= Len(T.ev)
        /\ IF Is("Raised") THEN Raised
           ELSE Begin \/ Step \/ Undefined
                \/ (s.ph = "run" /\ s.k = Len(s.ts) /\ s.ok /\
                    (Moments \/ Factor \/ Innovation \/ Mean \/ Mixture \/ Full \/ LawEv \/ Pair \/ Equal
                     \/ Pred1 \/ Upd1 \/ MleEv \/ Inter \/ InterMEv \/ Dec \/ Permuted))
Spec == Init /\ [][Next]_tvars
=============================================================================
