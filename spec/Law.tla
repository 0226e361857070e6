--------------------------------- MODULE Law ---------------------------------
(***************************************************************************)
(* Laws of sampled quantities.  A record of n samples is reduced to its    *)
(* empirical moments; they must lie within z standard errors of those of   *)
(* the law the specification states (z = 6.5: one false alarm in 10^10     *)
(* comparisons for large n; seeds are fixed besides).                      *)
(***************************************************************************)
EXTENDS Poly

(* |a| <= z sqrt(v / n), squared *)
Within(a, v, n, z) == Finite(a) /\ RLe(RMul(RSq(a), RInt(n)), RMul(RMul(z, z), v))
Zmax == RQ(13, 2)
(* slack for rounding in degenerate directions *)
Tiny == RQ(1, 1000000)
Slack(v) == RAdd(v, RSq(Tiny))

(* A record e: n samples, their mean, and the second and fourth central     *)
(* moments.  mu and Sig: mean and covariance of the Gaussian law.           *)
MeanOk(e, mu, Sig) == \A i \in 1..Len(Sig) : Within(RSub(e.mean[i], mu[i]), Slack(Sig[i][i]), e.n, Zmax)
CovOk(e, Sig) ==
    \A i, j \in 1..Len(Sig) :
        Within(RSub(e.m2[i][j], Sig[i][j]), RAdd(RMul(Slack(Sig[i][i]), Slack(Sig[j][j])), RSq(Sig[i][j])), e.n, Zmax)
(* fourth moments of a Gaussian: 3 v^2, with variance 96 v^4 / n            *)
FourthOk(e, Sig) ==
    \A i \in 1..Len(Sig) :
        Within(RSub(e.m4[i], RMul(RInt(3), RSq(Sig[i][i]))), RMul(RInt(96), RSq(RSq(Slack(Sig[i][i])))), e.n, RInt(9))
(* the share of samples within half a standard deviation: P(|Z| <= 1/2) *)
PHalf == RQ(38292492, 100000000)
CentreOk(e, Sig) ==
    \A i \in 1..Len(Sig) : RLe(Sig[i][i], RSq(RQ(1, 1000000))) \/
        Within(RSub(e.half[i], PHalf), RQ(237, 1000), e.n, RInt(7))
LawShape(e, d) == Len(e.mean) = d /\ Len(e.m4) = d /\ Len(e.half) = d /\ IsMat(e.m2, d, d)
                  /\ Len(e.shift) = d /\ Len(e.unit) = d
(* the moments are those of (x - shift) / unit *)
LawJudge(e, mu, Sig) ==
    (IF MeanOk(e, mu, Sig) THEN {} ELSE {"LawMean"})
         \cup (IF CovOk(e, Sig) THEN {} ELSE {"LawCovariance"})
         \cup (IF FourthOk(e, Sig) THEN {} ELSE {"LawFourthMoment"})
         \cup (IF CentreOk(e, Sig) THEN {} ELSE {"LawCentre"})
LawClauses(e, mu, Sig) ==
    IF ~LawShape(e, Len(Sig)) THEN {"LawShape"}
    ELSE Bind([i \in 1..Len(Sig) |-> RDiv(RSub(mu[i], e.shift[i]), e.unit[i])], LAMBDA mu1 :
         Bind([i \in 1..Len(Sig) |-> [j \in 1..Len(Sig) |-> RDiv(Sig[i][j], RMul(e.unit[i], e.unit[j]))]], LAMBDA Sig1 :
              LawJudge(e, mu1, Sig1)))
=============================================================================
